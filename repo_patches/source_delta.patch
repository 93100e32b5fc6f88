From 4981d377daef2ee1fda7e4199ffbfbfee2c73bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:42 +0000
Subject: [PATCH 01/51] fix: pass Memory and SyncFIFO parameters by keyword

nmigen's Memory, SyncFIFO and SyncFIFOBuffered take keyword-only arguments, so
every design holding the Huffman table or a FIFO failed to elaborate.
---
 migen_src/axihp_fifo.py         | 2 +-
 migen_src/b64_b32.py            | 4 ++--
 migen_src/converter_fifo.py     | 2 +-
 migen_src/encode.py             | 2 +-
 migen_src/lj92_pipeline_fifo.py | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/migen_src/axihp_fifo.py b/migen_src/axihp_fifo.py
index 0428edc..f8e8e60 100644
--- a/migen_src/axihp_fifo.py
+++ b/migen_src/axihp_fifo.py
@@ -32,7 +32,7 @@ class AxiHPFifo(Elaboratable):
 			[self.writable16, self.readable16] + \
 			[self.read]
 
-		self.fifo = SyncFIFO(65, 32)
+		self.fifo = SyncFIFO(width=65, depth=32)
 
 	def elaborate(self, platform):
 
diff --git a/migen_src/b64_b32.py b/migen_src/b64_b32.py
index a91dd0d..bd5a1f4 100644
--- a/migen_src/b64_b32.py
+++ b/migen_src/b64_b32.py
@@ -53,8 +53,8 @@ class B64B32(Elaboratable):
         m = Module()
 
         # fifo module
-        fifo64 = SyncFIFO(64, 2)
-        fifo32 = SyncFIFO(32, 4)
+        fifo64 = SyncFIFO(width=64, depth=2)
+        fifo32 = SyncFIFO(width=32, depth=4)
         m.submodules.fifo32 = fifo32
         m.submodules.fifo64 = fifo64
 
diff --git a/migen_src/converter_fifo.py b/migen_src/converter_fifo.py
index 9109081..bcad38e 100644
--- a/migen_src/converter_fifo.py
+++ b/migen_src/converter_fifo.py
@@ -72,7 +72,7 @@ class ConverterFifo(Elaboratable):
 			[self.enc_out, self.enc_out_ctr, self.out_end, self.valid_out] + \
 			[self.latch_output, self.writable, self.close_full]
 
-		self.fifo = SyncFIFOBuffered(self.total_bits, self.depth)
+		self.fifo = SyncFIFOBuffered(width=self.total_bits, depth=self.depth)
 
 	def elaborate(self, platform):
 
diff --git a/migen_src/encode.py b/migen_src/encode.py
index 0d7b6df..d5abb8f 100644
--- a/migen_src/encode.py
+++ b/migen_src/encode.py
@@ -192,7 +192,7 @@ class Encode(Elaboratable):
 		self.end_out = Signal(1)
 
 		# read ports to be accessed by encoders
-		self.mem = Memory(self.bd+21, self.bd+1, init_huff_table(self.bd))
+		self.mem = Memory(width=self.bd+21, depth=self.bd+1, init=init_huff_table(self.bd))
 		self.read_ports = [self.mem.read_port() for _ in range(self.ps)]
 		
 		if self.axi_lite:
diff --git a/migen_src/lj92_pipeline_fifo.py b/migen_src/lj92_pipeline_fifo.py
index cfac0c7..9642a39 100644
--- a/migen_src/lj92_pipeline_fifo.py
+++ b/migen_src/lj92_pipeline_fifo.py
@@ -72,7 +72,7 @@ class LJ92PipelineFifo(Elaboratable):
 			[self.latch_output, self.close_full]
 
 		# 4x dual port bram with 36kb each.
-		self.fifo = SyncFIFOBuffered(self.total_width, self.depth)
+		self.fifo = SyncFIFOBuffered(width=self.total_width, depth=self.depth)
 
 	def elaborate(self, platform):
 
-- 
2.43.0


From bad7c2c893aee77bcccf0f56017b877fb5ca0ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 02/51] fix: drop the removed SyncFIFO.replace from b64_b32

SyncFIFO has no replace signal, so b64_b32 and the full AXI design failed to
elaborate.
---
 migen_src/b64_b32.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/migen_src/b64_b32.py b/migen_src/b64_b32.py
index bd5a1f4..a19e955 100644
--- a/migen_src/b64_b32.py
+++ b/migen_src/b64_b32.py
@@ -58,12 +58,6 @@ class B64B32(Elaboratable):
         m.submodules.fifo32 = fifo32
         m.submodules.fifo64 = fifo64
 
-        # set replace to zero
-        m.d.sync += [
-            fifo32.replace.eq(0),
-            fifo64.replace.eq(0),
-        ]
-
         # register
         reg = Signal(64)
 
-- 
2.43.0


From 838e0240888dadb86caf3269723c5ab93c345682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 03/51] fix: offer no marker word in the cycle that resets the
 core

auto_reset raises its reset one cycle after the last end marker is taken; in
that cycle the markers module still offered a word with the end flag, so a
ready receiver took a ninth end marker and saw a second end of frame.
---
 migen_src/beta_integration.py  | 3 ++-
 migen_src/micro_integration.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/migen_src/beta_integration.py b/migen_src/beta_integration.py
index 6d7019c..ae5e334 100644
--- a/migen_src/beta_integration.py
+++ b/migen_src/beta_integration.py
@@ -127,7 +127,8 @@ class BetaIntegration(Elaboratable):
 		#out
 		m.d.comb += [
 			self.data_out.eq(markers.data_out),
-			self.valid_out.eq(markers.valid_out),
+			# the cycle after the last word is spent resetting the core.
+			self.valid_out.eq((markers.valid_out==1)&(auto_reset.reset_out==0)),
 			self.end_out.eq(markers.end_out),
 			self.nready.eq(integration_3.nready),
 		]
diff --git a/migen_src/micro_integration.py b/migen_src/micro_integration.py
index 315cffb..e3da1d2 100644
--- a/migen_src/micro_integration.py
+++ b/migen_src/micro_integration.py
@@ -124,7 +124,8 @@ class MicroIntegration(Elaboratable):
 		#out
 		m.d.comb += [
 			self.data_out.eq(markers.data_out),
-			self.valid_out.eq(markers.valid_out),
+			# the cycle after the last word is spent resetting the core.
+			self.valid_out.eq((markers.valid_out==1)&(auto_reset.reset_out==0)),
 			self.end_out.eq(markers.end_out),
 			self.nready.eq(integration_3.nready),
 		]
-- 
2.43.0


From 0994d18c0bc16d9bd86e5e8c4a3d2de5bf1f1594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 04/51] fix: carry the end flag and the back-pressure through
 the micro pipeline

micro_integration left fix_0xff and fix_0xff2 without their end input, so no
frame ever ended, and let fix_0xff2 follow the receiver instead of the markers
module, which lost the words produced while the start marker was sent.
---
 migen_src/micro_integration.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/migen_src/micro_integration.py b/migen_src/micro_integration.py
index e3da1d2..d363fc6 100644
--- a/migen_src/micro_integration.py
+++ b/migen_src/micro_integration.py
@@ -101,6 +101,7 @@ class MicroIntegration(Elaboratable):
 		m.d.comb += [
 			fix_0xff.data_in.eq(integration_3.data_out),
 			fix_0xff.valid_in.eq(integration_3.valid_out),
+			fix_0xff.end_in.eq(integration_3.end_out),
 			fix_0xff.i_busy.eq(fix_0xff2.o_busy),
 		]
 
@@ -108,7 +109,8 @@ class MicroIntegration(Elaboratable):
 		m.d.comb += [
 			fix_0xff2.data_in.eq(fix_0xff.data_out),
 			fix_0xff2.valid_in.eq(fix_0xff.valid_out),
-			fix_0xff2.i_busy.eq(self.busy_in),
+			fix_0xff2.end_in.eq(fix_0xff.end_out),
+			fix_0xff2.i_busy.eq(markers.o_busy),
 			fix_0xff2.data_in_ctr.eq(fix_0xff.data_out_ctr),
 		]
 
-- 
2.43.0


From 145260e845b64c615a72acf098fe1a16e3d3d187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 05/51] fix: notice the end of a frame only when its last word
 is taken

A frame whose data is a single word keeps it offered with the end flag while
the start marker is sent; the markers module took that for the end and dropped
the word.
---
 migen_src/markers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/migen_src/markers.py b/migen_src/markers.py
index 132efb5..f093834 100644
--- a/migen_src/markers.py
+++ b/migen_src/markers.py
@@ -73,7 +73,7 @@ class Markers(Elaboratable):
         # late_data_i = Signal(16)
 
         end_cond = Signal(1)
-        m.d.sync += end_cond.eq((self.i_busy==0)&(self.valid_in==1)&(self.end_in==1))
+        m.d.sync += end_cond.eq((self.o_busy==0)&(self.valid_in==1)&(self.end_in==1))
 
         # late2_busy_i = Signal(1)
         # late2_valid_i = Signal(1)
-- 
2.43.0


From d6850a6e37b198c8090814541cb9c4b240ee09bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 06/51] fix: close a forced frame that produced no word yet

The markers module waited for a first data word before looking at the forced
end, so a frame cut that early never ended.
---
 migen_src/markers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/migen_src/markers.py b/migen_src/markers.py
index f093834..433729e 100644
--- a/migen_src/markers.py
+++ b/migen_src/markers.py
@@ -96,7 +96,7 @@ class Markers(Elaboratable):
 
             with m.State("IDLE"):
                 m.d.sync += counter.eq(8)
-                with m.If(self.valid_in):
+                with m.If(self.valid_in | self.force_end_in):
                     m.next = "STARING_MARKER"
 
             with m.State("STARING_MARKER"):
-- 
2.43.0


From a49cc539d52dd81943b90b0cf84cb137b23c1fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 07/51] fix: keep an offered word and its end flag until they
 are taken

The forced end withdrew a word that was offered and stalled, and the end flag
of the last marker only rose in the cycle the receiver took it.
---
 migen_src/markers.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/migen_src/markers.py b/migen_src/markers.py
index 433729e..21bddbc 100644
--- a/migen_src/markers.py
+++ b/migen_src/markers.py
@@ -72,6 +72,10 @@ class Markers(Elaboratable):
         # late_end_i = Signal(1)
         # late_data_i = Signal(16)
 
+        # a word was offered and not taken, it must stay offered.
+        offered = Signal(1)
+        m.d.sync += offered.eq((self.valid_out==1)&(self.i_busy==1))
+
         end_cond = Signal(1)
         m.d.sync += end_cond.eq((self.o_busy==0)&(self.valid_in==1)&(self.end_in==1))
 
@@ -123,12 +127,13 @@ class Markers(Elaboratable):
                     self.data_out.eq(0xFFFF),
                     self.valid_out.eq(1),
                 ]
+                # handle end signals
+                with m.If(counter==1):
+                    m.d.comb += self.end_out.eq(1)
                 # handle counter
                 with m.If(self.i_busy==0):
                     m.d.sync += counter.eq(counter - 1)
-                    # handle end signals
                     with m.If(counter==1):
-                        m.d.comb += self.end_out.eq(1)
                         m.next = "DONE_NORMAL"
 
             with m.State("FORCE_ENDING_MARKER"):
@@ -137,12 +142,13 @@ class Markers(Elaboratable):
                     self.data_out.eq(0xFFFE),
                     self.valid_out.eq(1),
                 ]
+                # handle end signals
+                with m.If(counter==1):
+                    m.d.comb += self.end_out.eq(1)
                 # handle counter
                 with m.If(self.i_busy==0):
                     m.d.sync += counter.eq(counter - 1)
-                    # handle end signals
                     with m.If(counter==1):
-                        m.d.comb += self.end_out.eq(1)
                         m.next = "DONE_FORCE"
 
             with m.State("FRAME_HANDLING"):
@@ -150,7 +156,7 @@ class Markers(Elaboratable):
                 # with m.If((late2_busy_i==0)&(late2_valid_i==1)&(late2_end_i==1)):
                 with m.If(end_cond):
                     m.next = "ENDING_MARKER"
-                with m.Elif(self.force_end_in):
+                with m.Elif((self.force_end_in==1)&(offered==0)):
                     m.next = "FORCE_ENDING_MARKER"
                 with m.Else():
                     # m.d.comb += [
-- 
2.43.0


From 3ea8388e0cc7155a0dd100c69364bd6e26c04759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 08/51] fix: find the end of frames one or two inputs wide

Rows of a single input underflowed the column counter and a single row of two
inputs missed the end of frame, so such frames never ended.
---
 migen_src/signals.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/migen_src/signals.py b/migen_src/signals.py
index e3af351..dbc75aa 100644
--- a/migen_src/signals.py
+++ b/migen_src/signals.py
@@ -60,12 +60,25 @@ class Signals(Elaboratable):
 		with m.FSM() as fsm:
 
 			with m.State("IDLE"):
+				# the only input of the frame is the last one.
+				m.d.sync += self.end_of_frame.eq((self.height==1)&(self.width==self.ps))
 				with m.If(self.new_input):
-					m.d.sync += [
-						width_temp.eq(self.width-self.ps),
-						height_temp.eq(self.height-1),
-						self.new_row.eq(0),
-					]
+					# the next input is the last one.
+					with m.If(((self.height==1) & (self.width==2*self.ps)) | ((self.height==2) & (self.width==self.ps))):
+						m.d.sync += self.end_of_frame.eq(1)
+					# every input is a row.
+					with m.If(self.width==self.ps):
+						m.d.sync += [
+							width_temp.eq(self.width),
+							height_temp.eq(self.height-2),
+							self.new_row.eq(1),
+						]
+					with m.Else():
+						m.d.sync += [
+							width_temp.eq(self.width-self.ps),
+							height_temp.eq(self.height-1),
+							self.new_row.eq(0),
+						]
 					m.next = "LOOP"
 
 			with m.State("LOOP"):
@@ -81,7 +94,7 @@ class Signals(Elaboratable):
 							width_temp.eq(width_temp-self.ps),
 							self.new_row.eq(0),
 						]
-					with m.If((height_temp == 0) & (width_temp == 2*self.ps)):
+					with m.If(((height_temp == 0) & (width_temp == 2*self.ps)) | ((height_temp == 1) & (self.width == self.ps))):
 						m.d.sync += [
 							self.end_of_frame.eq(1),
 						]
-- 
2.43.0


From 2e6a2d491ab8ace41e123010a4b60298d49e1fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:54 +0000
Subject: [PATCH 09/51] fix: offer the last word of integration_3 only once

---
 migen_src/vbits_to_cbits.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/migen_src/vbits_to_cbits.py b/migen_src/vbits_to_cbits.py
index 57813b6..6320bd3 100644
--- a/migen_src/vbits_to_cbits.py
+++ b/migen_src/vbits_to_cbits.py
@@ -122,7 +122,9 @@ class OutputHandler(Elaboratable):
 					pass
 
 			with m.State("END"):
-				pass
+				# the last output must be latched only once
+				with m.If(self.busy_in == 0):
+					m.d.sync += self.valid_out.eq(0)
 
 		return m
 
-- 
2.43.0


From 04a07d91a25c7b0a3053ca4021e7f72adc847555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:38 +0000
Subject: [PATCH 10/51] fix: take differences of 16-bit pixels modulo 2^16

---
 migen_src/difference.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/migen_src/difference.py b/migen_src/difference.py
index b219c55..e656148 100644
--- a/migen_src/difference.py
+++ b/migen_src/difference.py
@@ -84,10 +84,17 @@ class Difference(Elaboratable):
 
 		m = Module()
 
+		# the standard takes differences modulo 2^16, which only matters for
+		# 16-bits pixels, the ssss classes can't represent them otherwise.
+		def modulo(val):
+			if self.bd == 16:
+				return Cat(val[0:16], val[15])
+			return val
+
 		#if valid data
 		with m.If(self.valid_in):
-			m.d.sync += [val_out.eq(pixel_in-predic_in) for val_out, pixel_in, predic_in in zip(self.vals_out, self.pixels_in, self.predics_in)]
-			m.d.sync += [val_out_mns.eq(pixel_in-predic_in-1) for val_out_mns, pixel_in, predic_in in zip(self.vals_out_mns, self.pixels_in, self.predics_in)]
+			m.d.sync += [val_out.eq(modulo(pixel_in-predic_in)) for val_out, pixel_in, predic_in in zip(self.vals_out, self.pixels_in, self.predics_in)]
+			m.d.sync += [val_out_mns.eq(modulo(pixel_in-predic_in)-1) for val_out_mns, pixel_in, predic_in in zip(self.vals_out_mns, self.pixels_in, self.predics_in)]
 
 		#if valid data
 		m.d.sync += self.valid_out.eq(self.valid_in)
-- 
2.43.0


From eb01ff46951df1f8604ac83c006d01d509fcd161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:48 +0000
Subject: [PATCH 11/51] fix: keep all 8 bits of a word split over two chunks in
 b16_b40

---
 migen_src/b16_b40.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/migen_src/b16_b40.py b/migen_src/b16_b40.py
index 85f219f..0d837a9 100644
--- a/migen_src/b16_b40.py
+++ b/migen_src/b16_b40.py
@@ -70,7 +70,7 @@ class B16B40(Elaboratable):
         m.d.comb += is_valid.eq(1)
 
         # buffer for the 0.5*input size
-        temp_8 = Signal(1)
+        temp_8 = Signal(8)
 
         # handle data_out
         with m.If(buff_chs==0):
-- 
2.43.0


From c64405194dde14c873fe7b87ad968da9d06e0b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:48 +0000
Subject: [PATCH 12/51] fix: keep the state of b16_b40 when the core resets
 itself

---
 migen_src/b16_b40.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/migen_src/b16_b40.py b/migen_src/b16_b40.py
index 0d837a9..fb573fa 100644
--- a/migen_src/b16_b40.py
+++ b/migen_src/b16_b40.py
@@ -91,7 +91,7 @@ class B16B40(Elaboratable):
                 m.d.full += buffer2_valid.eq(0)
 
         # fsm
-        with m.FSM() as fsm:
+        with m.FSM(domain="full") as fsm:
 
             # buffer 1 handling
             with m.State("BUFF1_IDLE"):
-- 
2.43.0


From b1703b01a6e1d0b048d4b9e70a6ed6300e6e712b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:48 +0000
Subject: [PATCH 13/51] fix: width adapters take nothing in the first cycle
 after reset

---
 migen_src/b16_b40.py | 2 +-
 migen_src/b16_b64.py | 2 +-
 migen_src/b64_b32.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/migen_src/b16_b40.py b/migen_src/b16_b40.py
index fb573fa..96dff83 100644
--- a/migen_src/b16_b40.py
+++ b/migen_src/b16_b40.py
@@ -41,7 +41,7 @@ class B16B40(Elaboratable):
         self.valid_in = Signal(1)
         self.valid_out = Signal(1)
 
-        self.o_busy = Signal(1) #I'm busy
+        self.o_busy = Signal(1, reset=1) #I'm busy
         self.i_busy = Signal(1) #next busy
 
         self.ios = \
diff --git a/migen_src/b16_b64.py b/migen_src/b16_b64.py
index ecd8e3a..9626b69 100644
--- a/migen_src/b16_b64.py
+++ b/migen_src/b16_b64.py
@@ -43,7 +43,7 @@ class B16B64(Elaboratable):
         self.end_in = Signal(1)
         self.end_out = Signal(1)
 
-        self.o_busy = Signal(1) #I'm busy
+        self.o_busy = Signal(1, reset=1) #I'm busy
         self.i_busy = Signal(1) #next busy
 
         self.ios = \
diff --git a/migen_src/b64_b32.py b/migen_src/b64_b32.py
index a19e955..632da2a 100644
--- a/migen_src/b64_b32.py
+++ b/migen_src/b64_b32.py
@@ -41,7 +41,7 @@ class B64B32(Elaboratable):
         self.valid_in = Signal(1)
         self.valid_out = Signal(1)
 
-        self.o_busy = Signal(1) #I'm busy
+        self.o_busy = Signal(1, reset=1) #I'm busy
         self.i_busy = Signal(1) #next busy
 
         self.ios = \
-- 
2.43.0


From f2a66e90f873c8457fbb4335bfe1bd77f6ae474b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 14/51] fix: keep the other half of a huffman entry when one
 half is written

---
 migen_src/core_axi_lite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/migen_src/core_axi_lite.py b/migen_src/core_axi_lite.py
index 6ca9560..adf509a 100644
--- a/migen_src/core_axi_lite.py
+++ b/migen_src/core_axi_lite.py
@@ -206,7 +206,7 @@ class CoreAxiLite(Elaboratable):
 		rp_data64_in = Signal(64)
 		rp_data64 = Signal(64)
 		m.d.comb += rp_data64.eq(self.rp_data)
-		m.d.comb += rp_data64_in.eq(0)
+		m.d.comb += rp_data64_in.eq(rp_data64)	# keep the half that is not written
 
 		# function that handle read/write operations on height and width register
 		def read_hw():
-- 
2.43.0


From 1bd705fdf41af5ce1f0256dcd7045f997275b36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:55 +0000
Subject: [PATCH 15/51] fix: write the upper half of a huffman entry

---
 migen_src/core_axi_lite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/migen_src/core_axi_lite.py b/migen_src/core_axi_lite.py
index adf509a..3de9470 100644
--- a/migen_src/core_axi_lite.py
+++ b/migen_src/core_axi_lite.py
@@ -262,7 +262,7 @@ class CoreAxiLite(Elaboratable):
 					start = 32 + i*8
 					end = start+8
 					with m.If(wstrb_v[i]):
-						m.d.comb += rp_data64_in[start:end].eq(wdata_v[start:end])
+						m.d.comb += rp_data64_in[start:end].eq(wdata_v[start-32:end-32])
 					with m.Else():
 						m.d.comb += rp_data64_in[start:end].eq(rp_data64[start:end])
 			m.d.full += [
-- 
2.43.0


From 215a94e7404972a731cee7da3192da8e08ede29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:20 +0000
Subject: [PATCH 16/51] fix: core_axi_lite responses don't wait for ready and
 stay until taken

---
 migen_src/core_axi_lite.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/migen_src/core_axi_lite.py b/migen_src/core_axi_lite.py
index 3de9470..a66df9c 100644
--- a/migen_src/core_axi_lite.py
+++ b/migen_src/core_axi_lite.py
@@ -336,9 +336,15 @@ class CoreAxiLite(Elaboratable):
 				# decode error
 				with m.Else():
 					m.d.full += rresp_v.eq(3)
+				# valid doesn't wait for ready
+				m.d.full += rvalid_v.eq(1)
+				m.next = "READ_RESPONSE"
+
+
+			with m.State("READ_RESPONSE"):
 				# to finish
 				with m.If(self.s_axi_ri.rready):
-					m.d.full += rvalid_v.eq(1)
+					m.d.full += rvalid_v.eq(0)
 					m.next = "IDLE"
 
 
@@ -390,8 +396,10 @@ class CoreAxiLite(Elaboratable):
 				clean_write_hw()
 				clean_write_ssss()
 				m.d.full += wready_v.eq(0)
-				with m.If(self.s_axi_wi.bready):
-					m.d.full += bvalid_v.eq(1)
+				# valid doesn't wait for ready
+				m.d.full += bvalid_v.eq(1)
+				with m.If((bvalid_v==1)&(self.s_axi_wi.bready==1)):
+					m.d.full += bvalid_v.eq(0)
 					m.next = "IDLE"
 
 		m.d.comb += [
-- 
2.43.0


From 13387a92bd36fe7b79c6dc30923bfe76d1dec41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:20 +0000
Subject: [PATCH 17/51] fix: dma_axi_lite responses don't wait for ready and
 stay until taken

---
 migen_src/dma_axi_lite.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/migen_src/dma_axi_lite.py b/migen_src/dma_axi_lite.py
index e409c42..8fdf982 100644
--- a/migen_src/dma_axi_lite.py
+++ b/migen_src/dma_axi_lite.py
@@ -236,9 +236,15 @@ class DMAAxiLite(Elaboratable):
 				# decode error
 				with m.Else():
 					m.d.sync += rresp_v.eq(3)
+				# valid doesn't wait for ready
+				m.d.sync += rvalid_v.eq(1)
+				m.next = "READ_RESPONSE"
+
+
+			with m.State("READ_RESPONSE"):
 				# to finish
 				with m.If(self.s_axi_ri_.rready):
-					m.d.sync += rvalid_v.eq(1)
+					m.d.sync += rvalid_v.eq(0)
 					m.next = "IDLE"
 
 
@@ -271,8 +277,10 @@ class DMAAxiLite(Elaboratable):
 			with m.State("WRITE_RESPONSE"):
 				clean_write_basic()
 				m.d.sync += wready_v.eq(0)
-				with m.If(self.s_axi_wi_.bready):
-					m.d.sync += bvalid_v.eq(1)
+				# valid doesn't wait for ready
+				m.d.sync += bvalid_v.eq(1)
+				with m.If((bvalid_v==1)&(self.s_axi_wi_.bready==1)):
+					m.d.sync += bvalid_v.eq(0)
 					m.next = "IDLE"
 
 		m.d.comb += [
-- 
2.43.0


From c929a11cf83a5bb13276ea773ade03735cbac3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:11 +0000
Subject: [PATCH 18/51] fix: axi lite slaves ack one data beat per write

---
 migen_src/core_axi_lite.py | 2 +-
 migen_src/dma_axi_lite.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/migen_src/core_axi_lite.py b/migen_src/core_axi_lite.py
index a66df9c..de04cce 100644
--- a/migen_src/core_axi_lite.py
+++ b/migen_src/core_axi_lite.py
@@ -368,8 +368,8 @@ class CoreAxiLite(Elaboratable):
 
 
 			with m.State("WRITE_DATA"):
-				m.d.full += wready_v.eq(1)	# ready for data
 				with m.If(self.s_axi_wi.wvalid):
+					m.d.full += wready_v.eq(1)	# ack data, this one only
 					m.d.comb += [
 						wdata_v.eq(self.s_axi_wi.wdata),
 						wstrb_v.eq(self.s_axi_wi.wstrb),
diff --git a/migen_src/dma_axi_lite.py b/migen_src/dma_axi_lite.py
index 8fdf982..7af8e79 100644
--- a/migen_src/dma_axi_lite.py
+++ b/migen_src/dma_axi_lite.py
@@ -259,8 +259,8 @@ class DMAAxiLite(Elaboratable):
 
 			with m.State("WRITE_DATA"):
 				m.d.sync += awready_v.eq(0)	# done
-				m.d.sync += wready_v.eq(1)	# ready for data
 				with m.If(self.s_axi_wi_.wvalid):
+					m.d.sync += wready_v.eq(1)	# ack data, this one only
 					m.d.comb += [
 						wdata_v.eq(self.s_axi_wi_.wdata),
 						wstrb_v.eq(self.s_axi_wi_.wstrb),
-- 
2.43.0


From d68d4c23de6ab8c0e947e7e17f2349e9e1ca217a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:18 +0000
Subject: [PATCH 19/51] fix: offer no ninth start marker

---
 migen_src/markers.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/migen_src/markers.py b/migen_src/markers.py
index 21bddbc..8698216 100644
--- a/migen_src/markers.py
+++ b/migen_src/markers.py
@@ -112,14 +112,14 @@ class Markers(Elaboratable):
                 # handle counter
                 with m.If(self.i_busy==0):
                     m.d.sync += counter.eq(counter - 1)
-                    # handle transition to frame handling
-                    with m.If(counter==0):
-                        m.d.sync += counter.eq(8)
-                        m.d.comb += [
-                            self.data_out.eq(0),
-                            self.valid_out.eq(0),
-                        ]
-                        m.next = "FRAME_HANDLING"
+                # handle transition to frame handling
+                with m.If(counter==0):
+                    m.d.sync += counter.eq(8)
+                    m.d.comb += [
+                        self.data_out.eq(0),
+                        self.valid_out.eq(0),
+                    ]
+                    m.next = "FRAME_HANDLING"
 
             with m.State("ENDING_MARKER"):
                 # handle output data
-- 
2.43.0


From 278971f1bf1a77625b0e7aea42eef996f33e6d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:18 +0000
Subject: [PATCH 20/51] fix: finish register transactions when the core resets
 itself

---
 migen_src/core_axi_lite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/migen_src/core_axi_lite.py b/migen_src/core_axi_lite.py
index de04cce..54ffde3 100644
--- a/migen_src/core_axi_lite.py
+++ b/migen_src/core_axi_lite.py
@@ -288,7 +288,7 @@ class CoreAxiLite(Elaboratable):
 		def clean_write_debug():
 			pass
 
-		with m.FSM() as main:
+		with m.FSM(domain="full") as main:
 
 			with m.State("IDLE"):
 				#needed from other states
-- 
2.43.0


From 4a15ed83f1a1af1aa35a4f122557d0612d84b859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:13 +0000
Subject: [PATCH 21/51] fix: answer reads and writes with their own id

---
 migen_src/axi_lite.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/migen_src/axi_lite.py b/migen_src/axi_lite.py
index f9219a6..45cbf47 100644
--- a/migen_src/axi_lite.py
+++ b/migen_src/axi_lite.py
@@ -94,18 +94,11 @@ class AxiLite(Elaboratable):
 
 		m = Module()
 
-		rwid = Signal(12)
-
 		#main process
-		with m.If(self.s_axi_ri.arvalid):
-			m.d.sync += rwid.eq(self.s_axi_ri.arid)
-		with m.If(self.s_axi_wi.awvalid):
-			m.d.sync += rwid.eq(self.s_axi_wi.awid)
-
-		m.d.sync += [
-			self.s_axi_ro.rid.eq(rwid),
-			self.s_axi_wo.bid.eq(rwid),
-		]
+		with m.If((self.s_axi_ri.arvalid==1)&(self.s_axi_ro.arready==1)):
+			m.d.sync += self.s_axi_ro.rid.eq(self.s_axi_ri.arid)
+		with m.If((self.s_axi_wi.awvalid==1)&(self.s_axi_wo.awready==1)):
+			m.d.sync += self.s_axi_wo.bid.eq(self.s_axi_wi.awid)
 
 		# clk and reset
 		m.d.comb += [
-- 
2.43.0


From 656f380888c6a2bb2ff31b35445262ed4c953c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:13 +0000
Subject: [PATCH 22/51] fix: axihp_writer marks the 16th beat as the last one
 and waits for it

---
 migen_src/axihp_writer.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/migen_src/axihp_writer.py b/migen_src/axihp_writer.py
index 9434fa4..34f502e 100644
--- a/migen_src/axihp_writer.py
+++ b/migen_src/axihp_writer.py
@@ -120,11 +120,16 @@ class AxiHPWriter(Elaboratable):
 		# wlast circuit
 		counter = Signal(4)
 		with m.If(data_en):
-			with m.If(counter==(self.data_c-1)):
+			with m.If(counter==(self.data_c-2)):
 				m.d.sync += [
-					counter.eq(0),
+					counter.eq(counter + 1),
 					wlast.eq(1),
 				]
+			with m.Elif(counter==(self.data_c-1)):
+				m.d.sync += [
+					counter.eq(0),
+					wlast.eq(0),
+				]
 			with m.Else():
 				m.d.sync += [
 					wlast.eq(0),
@@ -141,7 +146,7 @@ class AxiHPWriter(Elaboratable):
 
 		# active phase
 		with m.Else():
-			with m.If(wlast):
+			with m.If((data_en==1) & (wlast==1)):
 				m.d.sync += wvalid.eq(0)
 
 		m.d.comb += [
@@ -180,11 +185,14 @@ class AxiHPWriter(Elaboratable):
 		---------------------'''
 
 		# active_proc
-		with m.If((addr_en==1) & (wlast==0)):
+		last_en = Signal(1)
+		m.d.comb += last_en.eq((data_en==1) & (wlast==1))
+
+		with m.If((addr_en==1) & (last_en==0)):
 			# one more
 			m.d.sync += active.eq(active + 1)
 
-		with m.Elif((addr_en==0) & (wlast==1)):
+		with m.Elif((addr_en==0) & (last_en==1)):
 			# one less
 			m.d.sync += active.eq(active - 1)
 
-- 
2.43.0


From bd3a926dd7dd8827a028e330ef667b60c4c64f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:13 +0000
Subject: [PATCH 23/51] fix: axihp_reader looks at rlast of transferred beats
 only

---
 migen_src/axihp_reader.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/migen_src/axihp_reader.py b/migen_src/axihp_reader.py
index 3db010c..bc1a29e 100644
--- a/migen_src/axihp_reader.py
+++ b/migen_src/axihp_reader.py
@@ -114,7 +114,7 @@ class AxiHPReader(Elaboratable):
 
 		# active phase
 		with m.Else():
-			with m.If(self.m_axi_ri.rlast):
+			with m.If((data_en==1) & (self.m_axi_ri.rlast==1)):
 				m.d.sync += rready.eq(0)
 
 		m.d.comb += [
@@ -129,12 +129,15 @@ class AxiHPReader(Elaboratable):
 		| In Flight Accounting |
 		---------------------'''
 
+		last_en = Signal(1)
+		m.d.comb += last_en.eq((data_en==1) & (self.m_axi_ri.rlast==1))
+
 		# one more
-		with m.If((addr_en==1) & (self.m_axi_ri.rlast==0)):
+		with m.If((addr_en==1) & (last_en==0)):
 			m.d.sync += active.eq(active + 1)
 
 		# one less
-		with m.Elif((addr_en==0) & (self.m_axi_ri.rlast==1)):
+		with m.Elif((addr_en==0) & (last_en==1)):
 			m.d.sync += active.eq(active - 1)
 
 		m.d.comb += self.inactive.eq(active==0)
-- 
2.43.0


From 994a53d2c86a8916836a9b781c890b31ca8d4718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 24/51] fix: take no pixel in the cycle that resets the core

---
 migen_src/beta_integration.py  | 3 ++-
 migen_src/micro_integration.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/migen_src/beta_integration.py b/migen_src/beta_integration.py
index ae5e334..3927087 100644
--- a/migen_src/beta_integration.py
+++ b/migen_src/beta_integration.py
@@ -130,7 +130,8 @@ class BetaIntegration(Elaboratable):
 			# the cycle after the last word is spent resetting the core.
 			self.valid_out.eq((markers.valid_out==1)&(auto_reset.reset_out==0)),
 			self.end_out.eq(markers.end_out),
-			self.nready.eq(integration_3.nready),
+			# a pixel taken in the cycle that resets the core would be lost.
+			self.nready.eq((integration_3.nready==1)|(auto_reset.reset_out==1)),
 		]
 
 		return m
diff --git a/migen_src/micro_integration.py b/migen_src/micro_integration.py
index d363fc6..03b98d0 100644
--- a/migen_src/micro_integration.py
+++ b/migen_src/micro_integration.py
@@ -129,7 +129,8 @@ class MicroIntegration(Elaboratable):
 			# the cycle after the last word is spent resetting the core.
 			self.valid_out.eq((markers.valid_out==1)&(auto_reset.reset_out==0)),
 			self.end_out.eq(markers.end_out),
-			self.nready.eq(integration_3.nready),
+			# a pixel taken in the cycle that resets the core would be lost.
+			self.nready.eq((integration_3.nready==1)|(auto_reset.reset_out==1)),
 		]
 
 		return m
-- 
2.43.0


From 9aec791d0351072f5ee7f40b12955fdb19e7af4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:19 +0000
Subject: [PATCH 25/51] fix: axihp_writer requests no burst its response
 counter can't count

---
 migen_src/axihp_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/migen_src/axihp_writer.py b/migen_src/axihp_writer.py
index 34f502e..22de79a 100644
--- a/migen_src/axihp_writer.py
+++ b/migen_src/axihp_writer.py
@@ -98,7 +98,7 @@ class AxiHPWriter(Elaboratable):
 		# idle phase
 		with m.If(awvalid==0):
 			# writer enabled & address available & below max
-			with m.If((self.enable==1) & (self.addr_empty==0) & (active[3]==0)):
+			with m.If((self.enable==1) & (self.addr_empty==0) & (active[3]==0) & (unconf!=15)):
 				m.d.sync += awvalid.eq(1)
 
 		# active phase
-- 
2.43.0


From 2b71ab1b44736674f5db70a541d76f7e0c8eb474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:37 +0000
Subject: [PATCH 26/51] fix: axihp_writer takes pending responses after it is
 disabled

---
 migen_src/axihp_writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/migen_src/axihp_writer.py b/migen_src/axihp_writer.py
index 22de79a..da2956e 100644
--- a/migen_src/axihp_writer.py
+++ b/migen_src/axihp_writer.py
@@ -165,8 +165,8 @@ class AxiHPWriter(Elaboratable):
 
 		# idle phase
 		with m.If(bready==0):
-			# writer enabled
-			with m.If(self.enable):
+			# writer enabled or responses pending
+			with m.If(self.enable | (unconf!=0)):
 				m.d.sync += bready.eq(1)
 
 		# active phase
-- 
2.43.0


From 615d6d08bcf19d04b9f82bbdacc089f2cefda4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:39 +0000
Subject: [PATCH 27/51] fix: a delayer of two stages waits for its input

---
 migen_src/delayer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/migen_src/delayer.py b/migen_src/delayer.py
index 46245cb..2bea659 100644
--- a/migen_src/delayer.py
+++ b/migen_src/delayer.py
@@ -26,7 +26,7 @@ class Delayer(Elaboratable):
 		with m.If(timer_start):
 			m.d.sync += self.timer.eq(self.timer - 1)
 		
-		m.d.sync += out_val.eq((self.timer == 0)| out_val)
+		m.d.sync += out_val.eq(((self.timer == 0) & timer_start)| out_val)
 		m.d.comb += self.out_sig.eq(out_val)
 
 		return m
-- 
2.43.0


From b2cb08149ce9b1288307ca2a306df453d660e20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:58 +0000
Subject: [PATCH 28/51] fix: liblj92 counts differences of class 16 behind the
 end of the histogram

---
 liblj92/lj92.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index 665c504..66a61bb 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -49,7 +49,7 @@ typedef struct _ljp {
     int skiplen; // Skip this many values after each row
     u16* linearize; // Linearization table
     int linlen;
-    int sssshist[16];
+    int sssshist[17];
 
     // Huffman table - only one supported, and probably needed
 #ifdef SLOW_HUFF
-- 
2.43.0


From 0bcbfbacd2d14c80cb81b6849a84379222d8ca26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:58 +0000
Subject: [PATCH 29/51] fix: liblj92 decodes several components into
 overlapping row buffers

---
 liblj92/lj92.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index 66a61bb..4f75d95 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -665,7 +665,7 @@ int lj92_open(lj92* lj,
         else {
             self->rowcache = rowcache;
             self->outrow[0] = rowcache;
-            self->outrow[1] = &rowcache[self->x];
+            self->outrow[1] = &rowcache[self->x * self->components];
         }
     }
 
-- 
2.43.0


From 23cf220354e47f43a517351f70e9372c0365f6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:58 +0000
Subject: [PATCH 30/51] fix: liblj92 predicts a component from the component
 before it in predictors 4 to 7

---
 liblj92/lj92.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index 4f75d95..077dbdc 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -536,6 +536,7 @@ static int parseScan(ljp* self) {
                     Px = lastrow[c];  // Use value above for first pixel in row
                 } else {
                     int prev_colx = (col - 1) * self->components;
+                    left = thisrow[prev_colx + c];
    
                     switch (pred) {
                         case 0:
-- 
2.43.0


From b82db4289b25bf76e0d86e67cdf632a74e7f4a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:59 +0000
Subject: [PATCH 31/51] fix: liblj92 decodes predictor 6 as if there were one
 component

---
 liblj92/lj92.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index 077dbdc..ca9e849 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -511,7 +511,7 @@ static int parseScan(ljp* self) {
     int compcount = self->data[self->ix+2];
     int pred = self->data[self->ix+3+2*compcount];
     if (pred<0 || pred>7) return ret;
-    if (pred==6) return parsePred6(self); // Fast path
+    if (pred==6 && self->components==1) return parsePred6(self); // Fast path
     self->ix += BEH(self->data[self->ix]);
     self->cnt = 0;
     self->b = 0;
-- 
2.43.0


From a2b9ef92bb7a5ea1caaa147d2a5a0c7674091941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:59 +0000
Subject: [PATCH 32/51] fix: liblj92 ignores the tile's row length unless the
 predictor is 6

---
 liblj92/lj92.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index ca9e849..c0b9bf2 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -518,6 +518,7 @@ static int parseScan(ljp* self) {
     u16* out = self->image;
     u16* thisrow = self->outrow[0];
     u16* lastrow = self->outrow[1];
+    int write = self->writelen;
 
     // First pixel predicted from base value
     int diff;
@@ -578,15 +579,17 @@ static int parseScan(ljp* self) {
                     linear = left;
 
                 thisrow[colx + c] = left;
-                out[colx + c] = linear; // HACK
+                *out++ = linear;
+                if (--write==0) {
+                    out += self->skiplen;
+                    write = self->writelen;
+                }
             } // c
         } // col
 
         u16* temprow = lastrow;
         lastrow = thisrow;
         thisrow = temprow;
-
-        out += self->x * self->components + self->skiplen;
     } // row
 
     ret = LJ92_ERROR_NONE;
-- 
2.43.0


From d0a85d7540bea99092d21791d92f4d4f9a93517a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:59 +0000
Subject: [PATCH 33/51] fix: liblj92 does not skip after the first sample of a
 tile with rows of one sample

---
 liblj92/lj92.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index c0b9bf2..917c718 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -432,7 +432,10 @@ static int parsePred6(ljp* self) {
     thisrow[col++] = left;
     out[c++] = linear;
     if (self->ix >= self->datalen) return ret;
-    --write;
+    if (--write==0) {
+        out += self->skiplen;
+        write = self->writelen;
+    }
     int rowcount = self->x-1;
     while (rowcount--) {
         diff = nextdiff(self);
-- 
2.43.0


From 90e4afd3ae69fe5a34ac0088d2f66fdcdff9fe67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:00 +0000
Subject: [PATCH 34/51] fix: liblj92 reads behind the end of the linearization
 table

---
 liblj92/lj92.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index 917c718..e4c892f 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -425,9 +425,10 @@ static int parsePred6(ljp* self) {
     Px = 1 << (self->bits-1);
     left = Px + diff;
     left = (u16) (left%65536);
-    if (self->linearize)
+    if (self->linearize) {
+        if (left>=self->linlen) return LJ92_ERROR_CORRUPT;
         linear = self->linearize[left];
-    else
+    } else
         linear = left;
     thisrow[col++] = left;
     out[c++] = linear;
@@ -442,9 +443,10 @@ static int parsePred6(ljp* self) {
         Px = left;
         left = Px + diff;
         left = (u16) (left%65536);
-        if (self->linearize)
+        if (self->linearize) {
+            if (left>=self->linlen) return LJ92_ERROR_CORRUPT;
             linear = self->linearize[left];
-        else
+        } else
             linear = left;
         thisrow[col++] = left;
         out[c++] = linear;
@@ -467,7 +469,7 @@ static int parsePred6(ljp* self) {
         left = Px + diff;
         left = (u16) (left%65536);
         if (self->linearize) {
-            if (left>self->linlen) return LJ92_ERROR_CORRUPT;
+            if (left>=self->linlen) return LJ92_ERROR_CORRUPT;
             linear = self->linearize[left];
         } else
             linear = left;
@@ -487,7 +489,7 @@ static int parsePred6(ljp* self) {
             left = (u16) (left%65536);
             //printf("%d %d %d %d %d %x\n",col,diff,left,lastrow[col],lastrow[col-1],&lastrow[col]);
             if (self->linearize) {
-                if (left>self->linlen) return LJ92_ERROR_CORRUPT;
+                if (left>=self->linlen) return LJ92_ERROR_CORRUPT;
                 linear = self->linearize[left];
             } else
                 linear = left;
@@ -576,7 +578,7 @@ static int parseScan(ljp* self) {
                 //printf("%d %d %d\n",c,diff,left);
                 int linear;
                 if (self->linearize) {
-                    if (left>self->linlen) return LJ92_ERROR_CORRUPT;
+                    if (left>=self->linlen) return LJ92_ERROR_CORRUPT;
                     linear = self->linearize[left];
                 } else
                     linear = left;
-- 
2.43.0


From 82a7048f1de3cbba32b8f0926d9c836db4c3496d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:00 +0000
Subject: [PATCH 35/51] fix: liblj92 codes differences of class 16 with extra
 bits, which T.81 does not

---
 liblj92/lj92.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index e4c892f..9e3190b 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -366,7 +366,8 @@ inline static int nextdiff(ljp* self) {
     cnt -= usedbits;
     int keepbitsmask = (1 << cnt)-1;
     b &= keepbitsmask;
-    while (cnt < t) {
+    int extra = t==16 ? 0 : t; // Class 16 is the difference 32768, no bits follow
+    while (cnt < extra) {
         next = *(u16*)&self->data[ix];
         int one = next&0xFF;
         int two = next>>8;
@@ -378,12 +379,12 @@ inline static int nextdiff(ljp* self) {
             cnt -= 8;
         } else if (two==0xFF) ix++;
     }
-    cnt -= t;
+    cnt -= extra;
     int diff = b >> cnt;
-    int vt = 1<<(t-1);
-    if (diff < vt) {
-        vt = (-1 << t) + 1;
-        diff += vt;
+    if (t==16) {
+        diff = 32768;
+    } else if (t>0 && diff < 1<<(t-1)) {
+        diff += 1 - (1<<t);
     }
     keepbitsmask = (1 << cnt)-1;
     self->b = b & keepbitsmask;
@@ -776,9 +777,8 @@ int frequencyScan(lje* self) {
         else
             Px = rows[0][col] + ((rows[1][col-1] - rows[0][col-1])>>1);
         diff = rows[1][col] - Px;
-        diff = diff%65536;
-        int ssss = 32 - __builtin_clz(abs(diff));
-        if (diff==0) ssss=0;
+        diff = (int16_t)diff; // Modulo 65536
+        int ssss = diff==0 ? 0 : 32 - __builtin_clz(abs(diff));
         self->hist[ssss]++;
         //printf("%d %d %d %d %d %d\n",col,row,p,Px,diff,ssss);
         pixel++;
@@ -1066,15 +1066,15 @@ int writeBody(lje* self) {
         else
             Px = rows[0][col] + ((rows[1][col-1] - rows[0][col-1])>>1);
         diff = rows[1][col] - Px;
-        diff = diff%65536;
-        int ssss = 32 - __builtin_clz(abs(diff));
-        if (diff==0) ssss=0;
+        diff = (int16_t)diff; // Modulo 65536
+        int ssss = diff==0 ? 0 : 32 - __builtin_clz(abs(diff));
         //printf("%d %d %d %d %d\n",col,row,Px,diff,ssss);
 
         // Write the huffman code for the ssss value
         int huffcode = self->huffsym[ssss];
         int huffenc = self->huffenc[huffcode];
         int huffbits = self->huffbits[huffcode];
+        if (ssss==16) ssss = 0; // Class 16 is the difference 32768, no bits follow
         bitcount += huffbits + ssss;
 
         int vt = ssss>0?(1<<(ssss-1)):0;
-- 
2.43.0


From fe5d6b57e4e2aea9c1aa60f9183e048a1c5e8ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:00 +0000
Subject: [PATCH 36/51] fix: liblj92 reads headers beyond the end of the data

---
 liblj92/lj92.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index 9e3190b..44c3cde 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -74,7 +74,7 @@ typedef struct _ljp {
 static int find(ljp* self) {
     int ix = self->ix;
     u8* data = self->data;
-    while (data[ix] != 0xFF && ix<(self->datalen-1)) {
+    while (ix<(self->datalen-1) && data[ix] != 0xFF) {
         ix += 1;
     }
     ix += 2;
@@ -87,6 +87,7 @@ static int find(ljp* self) {
 
 static int parseHuff(ljp* self) {
     int ret = LJ92_ERROR_CORRUPT;
+    if (self->ix + 19 > self->datalen) return ret;
     u8* huffhead = &self->data[self->ix]; // xstruct.unpack('>HB16B',self.data[self.ix:self.ix+19])
     u8* bits = &huffhead[2];
     bits[0] = 0; // Because table starts from 1
@@ -266,7 +267,7 @@ static int parseHuff(ljp* self) {
 }
 
 static int parseSof3(ljp* self) {
-    if (self->ix+6 >= self->datalen) return LJ92_ERROR_CORRUPT;
+    if (self->ix+7 >= self->datalen) return LJ92_ERROR_CORRUPT;
     self->y = BEH(self->data[self->ix+3]);
     self->x = BEH(self->data[self->ix+5]);
     self->bits = self->data[self->ix+2];
@@ -276,6 +277,7 @@ static int parseSof3(ljp* self) {
 }
 
 static int parseBlock(ljp* self) {
+    if (self->ix+1 >= self->datalen) return LJ92_ERROR_CORRUPT;
     self->ix += BEH(self->data[self->ix]);
     if (self->ix >= self->datalen) return LJ92_ERROR_CORRUPT;
     return LJ92_ERROR_NONE;
@@ -514,7 +516,9 @@ static int parseScan(ljp* self) {
     int ret = LJ92_ERROR_CORRUPT;
     memset(self->sssshist,0,sizeof(self->sssshist));
     self->ix = self->scanstart;
+    if (self->ix+2 >= self->datalen) return ret;
     int compcount = self->data[self->ix+2];
+    if (self->ix+3+2*compcount >= self->datalen) return ret;
     int pred = self->data[self->ix+3+2*compcount];
     if (pred<0 || pred>7) return ret;
     if (pred==6 && self->components==1) return parsePred6(self); // Fast path
-- 
2.43.0


From d0d0df881aeda063613a8fb878151958f724e1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:01 +0000
Subject: [PATCH 37/51] fix: liblj92 opens files without a frame header, table
 or scan

---
 liblj92/lj92.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index 44c3cde..6bbd4b2 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -273,6 +273,8 @@ static int parseSof3(ljp* self) {
     self->bits = self->data[self->ix+2];
     self->components = self->data[self->ix + 7];
     self->ix += BEH(self->data[self->ix]);
+    if (self->x==0 || self->y==0 || self->components==0) return LJ92_ERROR_CORRUPT;
+    if (self->bits<2 || self->bits>16) return LJ92_ERROR_CORRUPT;
     return LJ92_ERROR_NONE;
 }
 
@@ -616,11 +618,16 @@ static int parseImage(ljp* self) {
             ret = parseSof3(self);
         else if (nextMarker == 0xfe)// Comment
             ret = parseBlock(self);
-        else if (nextMarker == 0xd9) // End of image
+        else if (nextMarker == 0xd9) { // End of image, and there was no scan
+            ret = LJ92_ERROR_CORRUPT;
             break;
-        else if (nextMarker == 0xda) {
+        } else if (nextMarker == 0xda) {
             self->scanstart = self->ix;
             ret = LJ92_ERROR_NONE;
+#ifndef SLOW_HUFF
+            if (self->hufflut==NULL) ret = LJ92_ERROR_CORRUPT;
+#endif
+            if (self->components==0) ret = LJ92_ERROR_CORRUPT;
             break;
         } else if (nextMarker == -1) {
             ret = LJ92_ERROR_CORRUPT;
-- 
2.43.0


From 6f860df6a56df9dac1795b8a588b5d4e65cf2b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:01 +0000
Subject: [PATCH 38/51] fix: liblj92 builds its lookup from Huffman tables that
 are not one

---
 liblj92/lj92.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index 6bbd4b2..a5879b0 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -93,6 +93,18 @@ static int parseHuff(ljp* self) {
     bits[0] = 0; // Because table starts from 1
     int hufflen = BEH(huffhead[0]);
     if ((self->ix + hufflen) >= self->datalen) return ret;
+    // The codes must fit 16 bits, and their values the segment and a difference
+    int count = 0;
+    int room = 1;
+    for (int hix=1;hix<=16;hix++) {
+        count += bits[hix];
+        room = 2*room - bits[hix];
+        if (room<0) return ret;
+    }
+    if (count==0 || hufflen < 19+count) return ret;
+    for (int hix=0;hix<count;hix++) {
+        if (huffhead[19+hix]>16) return ret;
+    }
 #ifdef SLOW_HUFF
     u8* huffval = calloc(hufflen - 19,sizeof(u8));
     if (huffval == NULL) return LJ92_ERROR_NO_MEMORY;
@@ -225,7 +237,7 @@ static int parseHuff(ljp* self) {
     }
     self->huffbits = maxbits;
     /* Now fill the lut */
-    u16* hufflut = malloc((1<<maxbits) * sizeof(u16));
+    u16* hufflut = calloc(1<<maxbits,sizeof(u16));
     if (hufflut == NULL) return LJ92_ERROR_NO_MEMORY;
     self->hufflut = hufflut;
     int i = 0;
-- 
2.43.0


From e6269e54b7fb401db2a0bc7aad779fc4707f25f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:01 +0000
Subject: [PATCH 39/51] fix: liblj92 loses the lookup of the first of two
 Huffman tables

---
 liblj92/lj92.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index a5879b0..4d82b5a 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -239,6 +239,7 @@ static int parseHuff(ljp* self) {
     /* Now fill the lut */
     u16* hufflut = calloc(1<<maxbits,sizeof(u16));
     if (hufflut == NULL) return LJ92_ERROR_NO_MEMORY;
+    free(self->hufflut);
     self->hufflut = hufflut;
     int i = 0;
     int hv = 0;
-- 
2.43.0


From 11bdd7055832240e65b1c113cfdd104d82e4122c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:02 +0000
Subject: [PATCH 40/51] fix: liblj92 writes into the data it decodes

---
 liblj92/lj92.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index 4d82b5a..21f7f3e 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -89,8 +89,7 @@ static int parseHuff(ljp* self) {
     int ret = LJ92_ERROR_CORRUPT;
     if (self->ix + 19 > self->datalen) return ret;
     u8* huffhead = &self->data[self->ix]; // xstruct.unpack('>HB16B',self.data[self.ix:self.ix+19])
-    u8* bits = &huffhead[2];
-    bits[0] = 0; // Because table starts from 1
+    u8* bits = &huffhead[2]; // bits[0] is the table's number
     int hufflen = BEH(huffhead[0]);
     if ((self->ix + hufflen) >= self->datalen) return ret;
     // The codes must fit 16 bits, and their values the segment and a difference
-- 
2.43.0


From 3f3dafb1643ba5d3fe8aebddc84da46fd2210aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:02 +0000
Subject: [PATCH 41/51] fix: liblj92 reads scan data beyond the end of the file

---
 liblj92/lj92.c | 55 ++++++++++++++++++++++++++------------------------
 1 file changed, 29 insertions(+), 26 deletions(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index 21f7f3e..4fd04ff 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -66,6 +66,8 @@ typedef struct _ljp {
     // Parse state
     int cnt;
     u32 b;
+    int missing; // Bits in b and before it that were not in the data
+    int corrupt; // Bits that were not in the data, or no code, were decoded
     u16* image;
     u16* rowcache;
     u16* outrow[2];
@@ -350,6 +352,20 @@ static int extend(ljp* self,int v,int t) {
 }
 #endif
 
+#ifndef SLOW_HUFF
+// The next byte of the scan, zero behind its end
+inline static u32 nextbyte(ljp* self,int* ix) {
+    u8* data = self->data;
+    int i = *ix;
+    if (i >= self->datalen || (data[i]==0xFF && i+1 < self->datalen && data[i+1]!=0)) {
+        self->missing += 8;
+        return 0;
+    }
+    *ix = i + (data[i]==0xFF ? 2 : 1); // A zero is stuffed after 0xFF
+    return data[i];
+}
+#endif
+
 inline static int nextdiff(ljp* self) {
 #ifdef SLOW_HUFF
     int t = decode(self);
@@ -360,40 +376,23 @@ inline static int nextdiff(ljp* self) {
     int cnt = self->cnt;
     int huffbits = self->huffbits;
     int ix = self->ix;
-    int next;
     while (cnt < huffbits) {
-        next = *(u16*)&self->data[ix];
-        int one = next&0xFF;
-        int two = next>>8;
-        b = (b<<16)|(one<<8)|two;
-        cnt += 16;
-        ix += 2;
-        if (one==0xFF) {
-            //printf("%x %x %x %x %d\n",one,two,b,b>>8,cnt);
-            b >>= 8;
-            cnt -= 8;
-        } else if (two==0xFF) ix++;
+        b = (b<<8)|nextbyte(self,&ix);
+        cnt += 8;
     }
     int index = b >> (cnt - huffbits);
     u16 ssssused = self->hufflut[index];
     int usedbits = ssssused&0xFF;
     int t = ssssused>>8;
+    if (usedbits==0) self->corrupt = 1; // Not the start of a code
     self->sssshist[t]++;
     cnt -= usedbits;
     int keepbitsmask = (1 << cnt)-1;
     b &= keepbitsmask;
     int extra = t==16 ? 0 : t; // Class 16 is the difference 32768, no bits follow
     while (cnt < extra) {
-        next = *(u16*)&self->data[ix];
-        int one = next&0xFF;
-        int two = next>>8;
-        b = (b<<16)|(one<<8)|two;
-        cnt += 16;
-        ix += 2;
-        if (one==0xFF) {
-            b >>= 8;
-            cnt -= 8;
-        } else if (two==0xFF) ix++;
+        b = (b<<8)|nextbyte(self,&ix);
+        cnt += 8;
     }
     cnt -= extra;
     int diff = b >> cnt;
@@ -403,6 +402,7 @@ inline static int nextdiff(ljp* self) {
         diff += 1 - (1<<t);
     }
     keepbitsmask = (1 << cnt)-1;
+    if (cnt < self->missing) self->corrupt = 1;
     self->b = b & keepbitsmask;
     self->cnt = cnt;
     self->ix = ix;
@@ -420,6 +420,8 @@ static int parsePred6(ljp* self) {
     self->ix += BEH(self->data[self->ix]);
     self->cnt = 0;
     self->b = 0;
+    self->missing = 0;
+    self->corrupt = 0;
     int write = self->writelen;
     // Now need to decode huffman coded values
     int c = 0;
@@ -449,7 +451,6 @@ static int parsePred6(ljp* self) {
         linear = left;
     thisrow[col++] = left;
     out[c++] = linear;
-    if (self->ix >= self->datalen) return ret;
     if (--write==0) {
         out += self->skiplen;
         write = self->writelen;
@@ -468,12 +469,12 @@ static int parsePred6(ljp* self) {
         thisrow[col++] = left;
         out[c++] = linear;
         //printf("%d %d %d %d %x\n",col-1,diff,left,thisrow[col-1],&thisrow[col-1]);
-        if (self->ix >= self->datalen) return ret;
         if (--write==0) {
             out += self->skiplen;
             write = self->writelen;
         }
     }
+    if (self->corrupt) return ret;
     temprow = lastrow;
     lastrow = thisrow;
     thisrow = temprow;
@@ -493,7 +494,6 @@ static int parsePred6(ljp* self) {
         thisrow[col++] = left;
         //printf("%d %d %d %d\n",col,diff,left,lastrow[col]);
         out[c++] = linear;
-        if (self->ix >= self->datalen) break;
         rowcount = self->x-1;
         if (--write==0) {
             out += self->skiplen;
@@ -520,7 +520,7 @@ static int parsePred6(ljp* self) {
         temprow = lastrow;
         lastrow = thisrow;
         thisrow = temprow;
-        if (self->ix >= self->datalen) break;
+        if (self->corrupt) return ret;
     }
     if (c >= pixels) ret = LJ92_ERROR_NONE;
     return ret;
@@ -539,6 +539,8 @@ static int parseScan(ljp* self) {
     self->ix += BEH(self->data[self->ix]);
     self->cnt = 0;
     self->b = 0;
+    self->missing = 0;
+    self->corrupt = 0;
     u16* out = self->image;
     u16* thisrow = self->outrow[0];
     u16* lastrow = self->outrow[1];
@@ -610,6 +612,7 @@ static int parseScan(ljp* self) {
                 }
             } // c
         } // col
+        if (self->corrupt) return ret;
 
         u16* temprow = lastrow;
         lastrow = thisrow;
-- 
2.43.0


From e9c38054ed78f06ed79e70340ecad9946952ec90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:02 +0000
Subject: [PATCH 42/51] fix: liblj92 counts the samples of large images in an
 int

---
 liblj92/lj92.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index 4fd04ff..7266f49 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -424,8 +424,8 @@ static int parsePred6(ljp* self) {
     self->corrupt = 0;
     int write = self->writelen;
     // Now need to decode huffman coded values
-    int c = 0;
-    int pixels = self->y * self->x;
+    size_t c = 0;
+    size_t pixels = (size_t)self->y * self->x;
     u16* out = self->image;
     u16* temprow;
     u16* thisrow = self->outrow[0];
-- 
2.43.0


From 868303bcbdb5e35e7eee5def31f3ca24d217a231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:03 +0000
Subject: [PATCH 43/51] fix: liblj92 codes delinearized images with the table
 of the original

---
 liblj92/lj92.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index 7266f49..15a9188 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -781,14 +781,14 @@ int frequencyScan(lje* self) {
     int maxval = (1 << self->bitdepth);
     while (pixcount--) {
         uint16_t p = *pixel;
-        /* if (self->delinearize) {
+        if (self->delinearize) {
             if (p>=self->delinearizeLength) {
                 free(rowcache);
                 return LJ92_ERROR_TOO_WIDE;
             }
             p = self->delinearize[p];
         }
-        if (p>=maxval) {
+        /* if (p>=maxval) {
             free(rowcache);
             return LJ92_ERROR_TOO_WIDE;
         } */
-- 
2.43.0


From 05bbd3ee4ea7d2c8a22df0ec240a50163581d960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:03 +0000
Subject: [PATCH 44/51] fix: liblj92 goes on without memory

---
 liblj92/lj92.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index 15a9188..778b6ba 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -771,6 +771,7 @@ int frequencyScan(lje* self) {
     int scan = self->readLength;
     uint16_t* rowcache = (uint16_t*)calloc(1,self->width*4);
     uint16_t* rows[2];
+    if (rowcache == NULL) return LJ92_ERROR_NO_MEMORY;
     rows[0] = rowcache;
     rows[1] = &rowcache[self->width];
 
@@ -1066,6 +1067,7 @@ int writeBody(lje* self) {
     int scan = self->readLength;
     uint16_t* rowcache = (uint16_t*)calloc(1,self->width*4);
     uint16_t* rows[2];
+    if (rowcache == NULL) return LJ92_ERROR_NO_MEMORY;
     rows[0] = rowcache;
     rows[1] = &rowcache[self->width];
 
@@ -1230,7 +1232,8 @@ int lj92_encode(uint16_t* image, int width, int height, int bitdepth,
 #ifdef DEBUG
     printf("written:%d\n",self->encodedWritten);
 #endif
-    self->encoded = realloc(self->encoded,self->encodedWritten);
+    uint8_t* shrunk = realloc(self->encoded,self->encodedWritten);
+    if (shrunk != NULL) self->encoded = shrunk;
     self->encodedLength = self->encodedWritten;
     *encoded = self->encoded;
     *encodedLength = self->encodedLength;
-- 
2.43.0


From 26336c2d9a47322d8b41a05e28b076b32bef8180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:04 +0000
Subject: [PATCH 45/51] fix: liblj92 has too little room for images that
 compress badly

---
 liblj92/lj92.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index 778b6ba..7c1f0c3 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -1206,18 +1206,24 @@ int lj92_encode(uint16_t* image, int width, int height, int bitdepth,
     self->skipLength = skipLength;
     self->delinearize = delinearize;
     self->delinearizeLength = delinearizeLength;
-    self->encodedLength = width*height*3+200;
-    self->encoded = malloc(self->encodedLength);
-    if (self->encoded==NULL) { free(self); return LJ92_ERROR_NO_MEMORY; }
     // Scan through data to gather frequencies of ssss prefixes
     ret = frequencyScan(self);
     if (ret != LJ92_ERROR_NONE) {
-        free(self->encoded);
         free(self);
         return ret;
     }
     // Create encoded table based on frequencies
     createEncodeTable(self);
+    // Room for the headers and for the codes, each byte of which may be stuffed
+    uint64_t codebits = 0;
+    for (int i=0;i<17;i++) {
+        codebits += (uint64_t)self->hist[i] * (self->huffbits[self->huffsym[i]] + (i==16 ? 0 : i));
+    }
+    uint64_t room = codebits/4+200;
+    if (room > INT32_MAX) { free(self); return LJ92_ERROR_ENCODER; }
+    self->encodedLength = room;
+    self->encoded = malloc(self->encodedLength);
+    if (self->encoded==NULL) { free(self); return LJ92_ERROR_NO_MEMORY; }
     // Write JPEG head and scan header
     writeHeader(self);
     // Scan through and do the compression
-- 
2.43.0


From 8c316351da8dcc4d79a5b60cfac03016f106f913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:53 +0000
Subject: [PATCH 46/51] fix: get_ssss leaves out the last class

---
 software/src/core_axi_lite.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/software/src/core_axi_lite.cpp b/software/src/core_axi_lite.cpp
index 656daae..1b6eeb4 100644
--- a/software/src/core_axi_lite.cpp
+++ b/software/src/core_axi_lite.cpp
@@ -35,7 +35,7 @@ vector<string> CoreAXILite::get_ssss()
     // get ssss codes from axi lite
     vector<uint64_t> ssss_codes;
     uint64_t code = 0;
-    for(int i=0; i<2*bit_depth; i++){
+    for(int i=0; i<2*(bit_depth+1); i++){
         if(i%2==0){
             code = __get(SSSS_OFFSET+i);
         } else {
@@ -45,7 +45,7 @@ vector<string> CoreAXILite::get_ssss()
     }
     // get ssss info form them
     vector<string> ssss;
-    for(int i=0; i<bit_depth; i++) {
+    for(int i=0; i<bit_depth+1; i++) {
         uint32_t code_length = (ssss_codes[i] >> (16+bit_depth));
         uint32_t mask = pow(2, code_length) - 1;
         uint32_t ssss_code = 0;
-- 
2.43.0


From 82e806fa7a858b8f4716f3539816d9ad38b442ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:58 +0000
Subject: [PATCH 47/51] fix: generated Verilog has no clock, reset and register
 ports

---
 migen_src/b16_b40.py                         | 3 ++-
 migen_src/b64_b32_2.py                       | 3 ++-
 migen_src/beta_integration.py                | 6 +++++-
 migen_src/beta_integration_axistream.py      | 4 +++-
 migen_src/beta_integration_fifo_axistream.py | 4 +++-
 migen_src/beta_integration_fifo_lvds.py      | 4 +++-
 migen_src/beta_integration_fullaxi.py        | 4 +++-
 migen_src/core_axi_lite.py                   | 3 ++-
 migen_src/debug_module.py                    | 3 ++-
 migen_src/integration_1.py                   | 7 ++++++-
 migen_src/integration_2.py                   | 7 ++++++-
 migen_src/integration_3.py                   | 7 ++++++-
 migen_src/integration_3_axi_stream.py        | 4 +++-
 migen_src/markers.py                         | 2 +-
 migen_src/micro_integration.py               | 6 +++++-
 migen_src/micro_integration_axistream.py     | 4 +++-
 migen_src/register_file.py                   | 3 ++-
 17 files changed, 57 insertions(+), 17 deletions(-)

diff --git a/migen_src/b16_b40.py b/migen_src/b16_b40.py
index 96dff83..32e8ad0 100644
--- a/migen_src/b16_b40.py
+++ b/migen_src/b16_b40.py
@@ -46,7 +46,8 @@ class B16B40(Elaboratable):
 
         self.ios = \
             [self.valid_in, self.valid_out, self.o_busy, self.i_busy] + \
-            [self.data_out, self.data_in]
+            [self.data_out, self.data_in] + \
+            [clk_domains.FULL.clk, clk_domains.FULL.rst, clk_domains.CORE.rst]
 
     def elaborate(self, platform):
 
diff --git a/migen_src/b64_b32_2.py b/migen_src/b64_b32_2.py
index b012ea0..0b4c513 100644
--- a/migen_src/b64_b32_2.py
+++ b/migen_src/b64_b32_2.py
@@ -50,7 +50,8 @@ class B64B32_2(Elaboratable):
 
         self.ios = \
             [self.valid_in, self.valid_out, self.o_busy, self.i_busy] + \
-            [self.data_out, self.data_in]
+            [self.data_out, self.data_in] + \
+            [clk_domains.FULL.clk, clk_domains.FULL.rst]
 
     def elaborate(self, platform):
 
diff --git a/migen_src/beta_integration.py b/migen_src/beta_integration.py
index 3927087..841e80b 100644
--- a/migen_src/beta_integration.py
+++ b/migen_src/beta_integration.py
@@ -51,7 +51,11 @@ class BetaIntegration(Elaboratable):
 		self.ios = \
 			[self.valid_in, self.valid_out, self.end_out] + \
 			[self.pixel_in1, self.pixel_in2, self.nready] + \
-			[self.data_out, self.busy_in]
+			[self.data_out, self.busy_in] + \
+			[clk_domains.FULL.clk, clk_domains.FULL.rst]
+
+		if config['support_axi_lite']:
+			self.ios += self.integration_3.integration_2.integration_1.core_axi_lite.axi_ios
 			
 	def elaborate(self, platform):
 
diff --git a/migen_src/beta_integration_axistream.py b/migen_src/beta_integration_axistream.py
index 0fa1736..d02fd7a 100644
--- a/migen_src/beta_integration_axistream.py
+++ b/migen_src/beta_integration_axistream.py
@@ -3,6 +3,7 @@ from nmigen.cli import main
 from nmigen.back import *
 from math import log, ceil
 import beta_integration
+import clk_domains
 
 class BetaIntegrationAxiStream(Elaboratable):
 
@@ -24,7 +25,8 @@ class BetaIntegrationAxiStream(Elaboratable):
 
 		self.ios = \
 			[self.m_tvalid, self.m_tlast, self.m_tready, self.m_tdata] + \
-			[self.s_tvalid, self.s_tlast, self.s_tready, self.s_tdata]
+			[self.s_tvalid, self.s_tlast, self.s_tready, self.s_tdata] + \
+			[clk_domains.FULL.clk, clk_domains.FULL.rst]
 
 		if self.top.config['support_axi_lite']:
 			self.ios += self.top.integration_3.integration_2.integration_1.core_axi_lite.axi_ios
diff --git a/migen_src/beta_integration_fifo_axistream.py b/migen_src/beta_integration_fifo_axistream.py
index bac093a..d92452a 100644
--- a/migen_src/beta_integration_fifo_axistream.py
+++ b/migen_src/beta_integration_fifo_axistream.py
@@ -4,6 +4,7 @@ from nmigen.back import *
 from math import log, ceil
 import beta_integration
 import b64_b32_2
+import clk_domains
 
 class BetaIntegrationFIFOAxiStream(Elaboratable):
 
@@ -25,7 +26,8 @@ class BetaIntegrationFIFOAxiStream(Elaboratable):
 
 		self.ios = \
 			[self.m_tvalid, self.m_tlast, self.m_tready, self.m_tdata] + \
-			[self.s_tvalid, self.s_tready, self.s_tdata]
+			[self.s_tvalid, self.s_tready, self.s_tdata] + \
+			[clk_domains.FULL.clk, clk_domains.FULL.rst]
 
 		if self.top.config['support_axi_lite']:
 			self.ios += self.top.integration_3.integration_2.integration_1.core_axi_lite.axi_ios
diff --git a/migen_src/beta_integration_fifo_lvds.py b/migen_src/beta_integration_fifo_lvds.py
index 4330b0f..c423cff 100644
--- a/migen_src/beta_integration_fifo_lvds.py
+++ b/migen_src/beta_integration_fifo_lvds.py
@@ -5,6 +5,7 @@ from math import log, ceil
 import beta_integration
 import b64_b32_2
 import b16_b40
+import clk_domains
 
 class BetaIntegrationFIFOLVDS(Elaboratable):
 
@@ -26,7 +27,8 @@ class BetaIntegrationFIFOLVDS(Elaboratable):
 
 		self.ios = \
 			[self.m_tvalid, self.m_tready, self.m_tdata] + \
-			[self.s_tvalid, self.s_tready, self.s_tdata]
+			[self.s_tvalid, self.s_tready, self.s_tdata] + \
+			[clk_domains.FULL.clk, clk_domains.FULL.rst]
 
 		if self.top.config['support_axi_lite']:
 			self.ios += self.top.integration_3.integration_2.integration_1.core_axi_lite.axi_ios
diff --git a/migen_src/beta_integration_fullaxi.py b/migen_src/beta_integration_fullaxi.py
index 8075a6a..e6771ce 100644
--- a/migen_src/beta_integration_fullaxi.py
+++ b/migen_src/beta_integration_fullaxi.py
@@ -7,6 +7,7 @@ import axihp_reader, axihp_writer
 import b64_b32, b16_b64
 import dma_axi_lite
 import axihp_fifo
+import clk_domains
 
 # AXI_Reader -> AXI_FIFO -> B64B32 -> LJ92 -> B16B64 -> AXI_FIFO -> AXI_Writer
 
@@ -35,7 +36,8 @@ class BetaIntegrationFullAxi(Elaboratable):
 		self.ios = \
 			self.axihp_reader.axi_ios + \
 			self.axihp_writer.axi_ios + \
-			self.dma_axi_lite.axi_ios
+			self.dma_axi_lite.axi_ios + \
+			[clk_domains.FULL.clk, clk_domains.FULL.rst]
 
 		# axi lite ports
 		if self.top.config['support_axi_lite']:
diff --git a/migen_src/core_axi_lite.py b/migen_src/core_axi_lite.py
index 54ffde3..a5647a8 100644
--- a/migen_src/core_axi_lite.py
+++ b/migen_src/core_axi_lite.py
@@ -125,7 +125,8 @@ class CoreAxiLite(Elaboratable):
 			[self.s_axi_wi.awaddr, self.s_axi_wi.awprot] + \
 			[self.s_axi_wi.awvalid, self.s_axi_wi.wdata] + \
 			[self.s_axi_wi.wstrb, self.s_axi_wi.wvalid] + \
-			[self.s_axi_wi.bready]
+			[self.s_axi_wi.bready] + \
+			[clk_domains.FULL.clk, clk_domains.FULL.rst, clk_domains.CORE.rst]
 
 		self.axi_ios = \
 			[self.s_axi_aclk, self.s_axi_areset_n] + \
diff --git a/migen_src/debug_module.py b/migen_src/debug_module.py
index d403cb1..9b1d6ac 100644
--- a/migen_src/debug_module.py
+++ b/migen_src/debug_module.py
@@ -38,7 +38,8 @@ class DebugModule(Elaboratable):
 
 		self.ios = \
 			[reg for reg in self.registers] + \
-			[self.regs_en]
+			[self.regs_en] + \
+			[clk_domains.FULL.clk, clk_domains.FULL.rst]
 
 
 	def elaborate(self, platform):
diff --git a/migen_src/integration_1.py b/migen_src/integration_1.py
index abb3394..38367b4 100644
--- a/migen_src/integration_1.py
+++ b/migen_src/integration_1.py
@@ -6,6 +6,7 @@ import difference, normalize, encode, merge, signals
 import constraints
 import predictor_p1_c4_px4, predictor_p1_c4_pix1_2
 import core_axi_lite, register_file, force_end
+import clk_domains
 
 class Integration1(Elaboratable):
 
@@ -55,7 +56,11 @@ class Integration1(Elaboratable):
 			[pixel_in for pixel_in in self.pixels_in] + \
 			[self.enc_out, self.enc_out_ctr] + \
 			[self.valid_in, self.valid_out] + \
-			[self.end_out, self.fend_out]
+			[self.end_out, self.fend_out] + \
+			[clk_domains.FULL.clk, clk_domains.FULL.rst, clk_domains.CORE.rst]
+
+		if config['support_axi_lite']:
+			self.ios += self.core_axi_lite.axi_ios
 			
 	def elaborate(self, platform):
 
diff --git a/migen_src/integration_2.py b/migen_src/integration_2.py
index 7911a05..4c751a5 100644
--- a/migen_src/integration_2.py
+++ b/migen_src/integration_2.py
@@ -6,6 +6,7 @@ import integration_1
 import converter_fifo, converter, lj92_pipeline_fifo
 import constraints
 import config
+import clk_domains
 
 class Integration2(Elaboratable):
 
@@ -41,7 +42,11 @@ class Integration2(Elaboratable):
 			[self.enc_out, self.enc_out_ctr] + \
 			[self.latch_output, self.nready] + \
 			[self.valid_in, self.valid_out] + \
-			[self.integration_1.fend_out]
+			[self.out_end, self.integration_1.fend_out] + \
+			[clk_domains.FULL.clk, clk_domains.FULL.rst, clk_domains.CORE.rst]
+
+		if config['support_axi_lite']:
+			self.ios += self.integration_1.core_axi_lite.axi_ios
 			
 	def elaborate(self, platform):
 
diff --git a/migen_src/integration_3.py b/migen_src/integration_3.py
index c43e16b..3edd80a 100644
--- a/migen_src/integration_3.py
+++ b/migen_src/integration_3.py
@@ -5,6 +5,7 @@ from math import log, ceil
 import vbits_to_cbits
 import integration_2
 import constraints
+import clk_domains
 
 class Integration3(Elaboratable):
 
@@ -38,7 +39,11 @@ class Integration3(Elaboratable):
 			[self.valid_in, self.valid_out, self.end_out] + \
 			[self.data_out, self.busy_in, self.nready] + \
 			[pixel_in for pixel_in in self.pixels_in] + \
-			[self.integration_2.integration_1.fend_out]
+			[self.integration_2.integration_1.fend_out] + \
+			[clk_domains.FULL.clk, clk_domains.FULL.rst, clk_domains.CORE.rst]
+
+		if config['support_axi_lite']:
+			self.ios += self.integration_2.integration_1.core_axi_lite.axi_ios
 
 	def elaborate(self, platform):
 
diff --git a/migen_src/integration_3_axi_stream.py b/migen_src/integration_3_axi_stream.py
index 1e3a9bf..de91f26 100644
--- a/migen_src/integration_3_axi_stream.py
+++ b/migen_src/integration_3_axi_stream.py
@@ -3,6 +3,7 @@ from nmigen.cli import main
 from nmigen.back import *
 from math import log, ceil
 import integration_3, constraints
+import clk_domains
 
 class Integration3AxiStream(Elaboratable):
 
@@ -39,7 +40,8 @@ class Integration3AxiStream(Elaboratable):
 
 		self.ios = \
 			[self.m_tvalid, self.m_tlast, self.m_tready, self.m_tdata] + \
-			[self.s_tvalid, self.s_tlast, self.s_tready, self.s_tdata]
+			[self.s_tvalid, self.s_tlast, self.s_tready, self.s_tdata] + \
+			[clk_domains.FULL.clk, clk_domains.FULL.rst, clk_domains.CORE.rst]
 
 	def elaborate(self, platform):
 
diff --git a/migen_src/markers.py b/migen_src/markers.py
index 8698216..5c43c3c 100644
--- a/migen_src/markers.py
+++ b/migen_src/markers.py
@@ -51,7 +51,7 @@ class Markers(Elaboratable):
         self.ios = \
             [self.valid_in, self.valid_out, self.o_busy, self.i_busy] + \
             [self.data_out, self.data_in] + \
-            [self.end_in, self.end_out]
+            [self.end_in, self.force_end_in, self.end_out]
 
     def elaborate(self, platform):
 
diff --git a/migen_src/micro_integration.py b/migen_src/micro_integration.py
index 03b98d0..345ce08 100644
--- a/migen_src/micro_integration.py
+++ b/migen_src/micro_integration.py
@@ -50,7 +50,11 @@ class MicroIntegration(Elaboratable):
 		self.ios = \
 			[self.valid_in, self.valid_out, self.end_out] + \
 			[self.data_out, self.busy_in] + \
-			[self.pixel_in, self.nready]
+			[self.pixel_in, self.nready] + \
+			[clk_domains.FULL.clk, clk_domains.FULL.rst]
+
+		if config['support_axi_lite']:
+			self.ios += self.integration_3.integration_2.integration_1.core_axi_lite.axi_ios
 			
 	def elaborate(self, platform):
 
diff --git a/migen_src/micro_integration_axistream.py b/migen_src/micro_integration_axistream.py
index 12b7968..1a2b026 100644
--- a/migen_src/micro_integration_axistream.py
+++ b/migen_src/micro_integration_axistream.py
@@ -3,6 +3,7 @@ from nmigen.cli import main
 from nmigen.back import *
 from math import log, ceil
 import micro_integration
+import clk_domains
 
 class MicroIntegrationAxiStream(Elaboratable):
 
@@ -24,7 +25,8 @@ class MicroIntegrationAxiStream(Elaboratable):
 
 		self.ios = \
 			[self.m_tvalid, self.m_tlast, self.m_tready, self.m_tdata] + \
-			[self.s_tvalid, self.s_tlast, self.s_tready, self.s_tdata]
+			[self.s_tvalid, self.s_tlast, self.s_tready, self.s_tdata] + \
+			[clk_domains.FULL.clk, clk_domains.FULL.rst]
 
 		if self.top.config['support_axi_lite']:
 			self.ios += self.top.integration_3.integration_2.integration_1.core_axi_lite.axi_ios
diff --git a/migen_src/register_file.py b/migen_src/register_file.py
index 97d96af..b9db6a6 100644
--- a/migen_src/register_file.py
+++ b/migen_src/register_file.py
@@ -38,7 +38,8 @@ class RegisterFile(Elaboratable):
 		self.allowed_cycles = Signal(24)
 
 		self.ios = \
-		[self.height, self.width, self.allowed_cycles]
+		[self.height, self.width, self.allowed_cycles] + \
+		[clk_domains.FULL.clk, clk_domains.FULL.rst]
 
 
 	def elaborate(self, platform):
-- 
2.43.0


From c3bdb195473505fa7013997799fe89f75578ae4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:40 +0000
Subject: [PATCH 48/51] fix: answer DMA addresses without a register with a
 decode error

Only one address bit was looked at, so that the rest of the window showed the
registers again, or answered with success and the data of the last read.
---
 migen_src/dma_axi_lite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/migen_src/dma_axi_lite.py b/migen_src/dma_axi_lite.py
index 7af8e79..1b1b36a 100644
--- a/migen_src/dma_axi_lite.py
+++ b/migen_src/dma_axi_lite.py
@@ -135,7 +135,7 @@ class DMAAxiLite(Elaboratable):
 		basic_index = Signal(4)
 
 		m.d.comb += [
-			basic_enable.eq(addr_v[10]),
+			basic_enable.eq((addr_v[4:11] == (0x400 >> 4))&(addr_v[0:4] < 12)),
 			basic_index.eq(addr_v),
 		]
 
-- 
2.43.0


From 4aad61cdd3e10a382cad29dc9feb1c9e64e06ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:08 +0000
Subject: [PATCH 49/51] fix: answer core addresses without a register with a
 decode error

Only one address bit was looked at for the frame size, budget and counters, so
that writes to addresses behind them changed the frame size or the budget.
---
 migen_src/core_axi_lite.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/migen_src/core_axi_lite.py b/migen_src/core_axi_lite.py
index a5647a8..0a24250 100644
--- a/migen_src/core_axi_lite.py
+++ b/migen_src/core_axi_lite.py
@@ -192,9 +192,9 @@ class CoreAxiLite(Elaboratable):
 		hw_index = Signal(1)
 
 		m.d.comb += [
-			ssss_enable.eq(addr_v[10]),
-			hw_enable.eq(addr_v[11]),
-			debug_enable.eq(addr_v[12]),
+			ssss_enable.eq(addr_v[6:13] == (0x400 >> 6)),
+			hw_enable.eq(addr_v[1:13] == (0x800 >> 1)),
+			debug_enable.eq(addr_v[3:13] == (0x1000 >> 3)),
 			ssss_index.eq(addr_v),
 			debug_index.eq(addr_v),
 			hw_index.eq(addr_v),
-- 
2.43.0


From 123a1985cd19f3df541c10066ff5b411e202f1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:16 +0000
Subject: [PATCH 50/51] fix: lj92_open leaves the handle as it was when memory
 runs out

---
 liblj92/lj92.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index 7c1f0c3..b1811f8 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -687,6 +687,7 @@ int lj92_open(lj92* lj,
               uint8_t* data, int datalen,
               int* width,int* height, int* bitdepth, int* components) {
     ljp* self = (ljp*)calloc(sizeof(ljp),1);
+    *lj = NULL;
     if (self==NULL) return LJ92_ERROR_NO_MEMORY;
 
     self->data = (u8*)data;
-- 
2.43.0


From d6d25f615a97f3084b6af2d64453ffc0d9f26b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:21:21 +0000
Subject: [PATCH 51/51] fix: liblj92 skips the fill bytes that may stand before
 a marker

---
 liblj92/lj92.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index b1811f8..8bbfa62 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -79,6 +79,9 @@ static int find(ljp* self) {
     while (ix<(self->datalen-1) && data[ix] != 0xFF) {
         ix += 1;
     }
+    while (ix<(self->datalen-2) && data[ix+1] == 0xFF) {
+        ix += 1; // Fill bytes
+    }
     ix += 2;
     if (ix>=self->datalen) return -1;
     self->ix = ix;
-- 
2.43.0

