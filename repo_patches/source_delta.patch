From f44c5218213d1320c69168c8736bf04722ce83d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:50 +0000
Subject: [PATCH 1/5] fix: mark every word of a multi-word write dirty

A write of 8 or 16 bytes (data bitwidth above 32) set the dirty bit of its
first word only, so an eviction, FLUSH or AMO write-back dropped the rest of
the written data.
---
 blocking_cache/units/UpdateTagArrayUnit.py | 27 +++++-------
 blocking_cache/units/arithmetics.py        | 51 ++++++++++++++++++----
 2 files changed, 53 insertions(+), 25 deletions(-)

diff --git a/blocking_cache/units/UpdateTagArrayUnit.py b/blocking_cache/units/UpdateTagArrayUnit.py
index d81bd35..cf1d620 100644
--- a/blocking_cache/units/UpdateTagArrayUnit.py
+++ b/blocking_cache/units/UpdateTagArrayUnit.py
@@ -11,6 +11,7 @@ Date:   17 March 2020
 from pymtl3 import *
 
 from ..cache_constants import *
+from .arithmetics      import WriteWordMaskGen
 
 class UpdateTagArrayUnit( Component ):
   """
@@ -22,9 +23,14 @@ class UpdateTagArrayUnit( Component ):
     s.old_entries = [ InPort(p.StructTagArray) for _ in range(p.associativity) ]
     s.cmd         = InPort (3)
     s.refill_dty  = InPort (p.bitwidth_dirty)
-    s.wr_len      = InPort (p.bitwidth_len)       # for double-word CIFER hack
+    s.wr_len      = InPort (p.bitwidth_len)       # which words a write covers
     s.out         = OutPort(p.StructTagArray)
 
+    # Words to be marked as dirty on a write
+    s.word_mask_gen = m = WriteWordMaskGen(p)
+    m.offset //= s.offset
+    m.len_   //= s.wr_len
+
     @update
     def new_tag_array_entry_logic():
       s.out.tag @= s.old_entries[s.way].tag
@@ -32,29 +38,18 @@ class UpdateTagArrayUnit( Component ):
       s.out.dty @= s.old_entries[s.way].dty
 
       if s.cmd == UpdateTagArrayUnit_CMD_WR_REFILL:
-        # Refill on a write, mark the word being written as dirty, the
+        # Refill on a write, mark the words being written as dirty, the
         # rest is clean
         s.out.val @= CACHE_LINE_STATE_VALID
-        s.out.dty @= 0 | s.refill_dty
-        s.out.dty[ s.offset[2 : p.bitwidth_offset] ] @= 1
-        # moyang: this is a hack for CIFER project. When len == 3, we
-        # zero-extend the 32-bit word to a 64-bit double word, so we need to
-        # set the dirty bits of two words
-        if s.wr_len == 3:
-          s.out.dty[ s.offset[2 : p.bitwidth_offset] + 1 ] @= 1
+        s.out.dty @= s.word_mask_gen.out | s.refill_dty
       elif s.cmd == UpdateTagArrayUnit_CMD_RD_REFILL:
         # Refill for a read, simply mark valid bit and clear the dirty
         # bits
         s.out.val @= CACHE_LINE_STATE_VALID
         s.out.dty @= 0 | s.refill_dty
       elif s.cmd == UpdateTagArrayUnit_CMD_WR_HIT:
-        # Hit a clean word, mark the word as dirty
-        s.out.dty[ s.offset[2 : p.bitwidth_offset] ] @= 1
-        # moyang: this is a hack for CIFER project. When len == 3, we
-        # zero-extend the 32-bit word to a 64-bit double word, so we need to
-        # set the dirty bits of two words
-        if s.wr_len == 3:
-          s.out.dty[ s.offset[2 : p.bitwidth_offset] + 1 ] @= 1
+        # Hit a clean word, mark the words being written as dirty
+        s.out.dty @= s.old_entries[s.way].dty | s.word_mask_gen.out
       elif s.cmd == UpdateTagArrayUnit_CMD_CLEAR:
         # Clear the entire entry
         s.out.tag @= 0
diff --git a/blocking_cache/units/arithmetics.py b/blocking_cache/units/arithmetics.py
index d3266ca..5ae75f9 100644
--- a/blocking_cache/units/arithmetics.py
+++ b/blocking_cache/units/arithmetics.py
@@ -230,6 +230,39 @@ class WriteBitEnGen( Component ):
     msg = f'o[{s.out}] '
     return msg
 
+class WriteWordMaskGen( Component ):
+  """
+  Decodes which words of the cache line a write covers, one bit per word
+  (the granularity of the dirty bits)
+  """
+  def construct( s, p ):
+    s.offset = InPort (p.bitwidth_offset)
+    s.len_   = InPort (p.bitwidth_len)
+    s.out    = OutPort(p.bitwidth_dirty)
+
+    # All words covered if the write started at offset 0
+    s.words = Wire( p.bitwidth_dirty )
+
+    full_mask = 2**(p.bitwidth_data // 32) - 1
+
+    @update
+    def words_logic():
+      if s.len_ == 0: # the whole data bitwidth
+        s.words @= trunc(Bits32(full_mask), p.bitwidth_dirty)
+      elif s.len_ == 3:
+        # moyang: this is a hack for CIFER project. When len == 3, we
+        # zero-extend the 32-bit word to a 64-bit double word, so we need to
+        # set the dirty bits of two words
+        s.words @= trunc(Bits32(0b11), p.bitwidth_dirty)
+      elif s.len_ == trunc(Bits32(8), p.bitwidth_len):
+        s.words @= trunc(Bits32(0b11), p.bitwidth_dirty)
+      elif s.len_ == trunc(Bits32(16), p.bitwidth_len):
+        s.words @= trunc(Bits32(0b1111), p.bitwidth_dirty)
+      else:
+        s.words @= 1
+
+    s.out //= lambda: s.words << zext( s.offset[2 : p.bitwidth_offset], p.bitwidth_dirty )
+
 class TagArrayRDataProcessUnit( Component ):
   """
   Processes all incoming data from the tag array(s).
@@ -250,19 +283,19 @@ class TagArrayRDataProcessUnit( Component ):
     s.line_dirty = OutPort(p.associativity) # If the line is dirty
     s.tag_entires= [ OutPort(p.StructTagArray) for _ in range(p.associativity) ]
 
+    # Words accessed by the request
+    s.word_mask_gen = m = WriteWordMaskGen(p)
+    m.offset //= s.offset
+    m.len_   //= s.wr_len
+
     # word dirty logic
     @update
     def word_dirty_logic():
       for i in range(p.associativity):
-        # moyang: this is a CIFER hack. When writing a double word (zero
-        # extending a 32-bit word to a 64-bit double word), we only consider the
-        # double word dirty if both 32-bit words are dirty, because we need to
-        # stall the pipeline to set the two dirty bits if any of them is not
-        # already dirty.
-        if s.wr_len == 3:
-          s.word_dirty[i] @= s.tag_array[i].dty[ s.offset[2 : p.bitwidth_offset] ] & s.tag_array[i].dty[ s.offset[2 : p.bitwidth_offset] + 1 ]
-        else:
-          s.word_dirty[i] @= s.tag_array[i].dty[ s.offset[2 : p.bitwidth_offset] ]
+        # When writing more than one word, we only consider the access dirty if
+        # all of its words are dirty, because we need to stall the pipeline to
+        # set the dirty bits if any of them is not already dirty.
+        s.word_dirty[i] @= (s.tag_array[i].dty & s.word_mask_gen.out) == s.word_mask_gen.out
 
     @update
     def line_dirty_logic():
-- 
2.43.0


From b12ca3b489fbe9e382c1d7dc9690b8e204c2bee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:50 +0000
Subject: [PATCH 2/5] fix: let the FL model serve AMOs to any address

ModelCache.amo looked lines up under a signed or Bits key, so an AMO to a
line not touched before, or in the upper half of the address space, raised
KeyError.
---
 blocking_cache/BlockingCacheFL.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/blocking_cache/BlockingCacheFL.py b/blocking_cache/BlockingCacheFL.py
index 1a3cfb5..488699a 100644
--- a/blocking_cache/BlockingCacheFL.py
+++ b/blocking_cache/BlockingCacheFL.py
@@ -283,17 +283,17 @@ class ModelCache:
   def amo(self, addr, value, opaque, len_, func):
     # AMO operations are on the word level only
     self.tracker.amo_req(addr)
-    new_addr = addr[self.offset_end:32]
+    new_addr = int(addr[self.offset_end:32])
     offset = int(addr[self.offset_start:self.offset_end])
     if new_addr not in self.mem:
       self.mem[new_addr] = Bits(self.mem_bitwidth_data, 0)
-    ret = self.mem[new_addr.int()][offset * 8 : (offset + 4) * 8]
+    ret = self.mem[new_addr][offset * 8 : (offset + 4) * 8]
     
     value = trunc(value, 32)
     amo_out = AMO_FUNS[ int(func) ]( ret, value )
     ret = zext( ret, self.cache_bitwidth_data )
     value = zext( value, self.cache_bitwidth_data )
-    self.mem[new_addr.int()][offset * 8 : (offset + 4) * 8] = amo_out
+    self.mem[new_addr][offset * 8 : (offset + 4) * 8] = amo_out
     
     self.transactions.append(req (self.CacheReqType, func, opaque, addr, len_, value))
     self.transactions.append(resp(self.CacheRespType,func, opaque, 0,    len_, ret))
-- 
2.43.0


From a1b3b6b73c978560d5a031ca124d82a31421a367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:33 +0000
Subject: [PATCH 3/5] fix: let a WRITE of the whole data width through above
 128 bits

WriteBitEnGen enabled no byte for len 0 when the data is wider than 128
bits, so such a write was answered and its words marked dirty, but its
data was never stored.
---
 blocking_cache/units/arithmetics.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/blocking_cache/units/arithmetics.py b/blocking_cache/units/arithmetics.py
index 5ae75f9..2184a0f 100644
--- a/blocking_cache/units/arithmetics.py
+++ b/blocking_cache/units/arithmetics.py
@@ -171,9 +171,11 @@ class WriteBitEnGen( Component ):
     s.word_mask = Wire( bitwidth_nbyte )
     nlens = clog2( p.bitwidth_data ) - 2
 
-    # NOTE this is hardcoded to work for up to 128 bit data access
+    # NOTE lengths other than 0 are hardcoded to work for up to 128 bit data access
     assert( p.bitwidth_data >= 32 )
 
+    data_mask = mk_bits( bitwidth_nbyte )( 2**(p.bitwidth_data // 8) - 1 )
+
     @update
     def req_word_mask_logic():
       # Take advantage of bitwidth truncation to select word mask depending on
@@ -194,6 +196,9 @@ class WriteBitEnGen( Component ):
       elif s.len_ == trunc(Bits32(16), p.bitwidth_len):
         # truncated to 0 if 128 bit data
         s.word_mask @= 0xffff
+      elif s.len_ == 0:
+        # the whole data bitwidth, if it is larger than 128 bits
+        s.word_mask @= data_mask
       else:
         s.word_mask @= 0
 
-- 
2.43.0


From 17f75f7cf243c1d4c65a57b1caf1c91ed5998dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:07 +0000
Subject: [PATCH 4/5] fix: let the chained selector pass only the word of an
 AMO

DataSelectMux passed the whole data width for an AMO, so with data wider
than 32 bits the processor saw whatever the memory sent above the word.
FastDataSelectMux gives zero there.
---
 blocking_cache/units/muxes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/blocking_cache/units/muxes.py b/blocking_cache/units/muxes.py
index 4f292ed..b034efd 100644
--- a/blocking_cache/units/muxes.py
+++ b/blocking_cache/units/muxes.py
@@ -78,7 +78,10 @@ class DataSelectMux( Component ):
     ninputs = clog2(p.bitwidth_data) 
     s.output_mux = m = Mux(p.bitwidth_data, ninputs)
     m.in_[0] //= 0 # output 0 for write/inv/flush requests
-    m.in_[1] //= s.in_[0 : p.bitwidth_data] # AMO operations
+    # AMO operations are on 32-bit words, whatever the memory sends above
+    m.in_[1][0 : 32] //= s.in_[0 : 32]
+    if p.bitwidth_data > 32:
+      m.in_[1][32 : p.bitwidth_data] //= 0
     for i in range(ninputs - 2):
       if i < nmuxes:
         m.in_[i+2] //= s.sub[i].out[0 : p.bitwidth_data]
-- 
2.43.0


From 88ea58ab7d902a3f30ee2a33231eeae58d62532f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:34 +0000
Subject: [PATCH 5/5] fix: name the opaque width in the parameter string

Translated sub-modules are named after the parameters of the cache. Two
caches of one design that differ only in the opaque width got the same
module name, so the translator wrote one datapath for both and the second
cache lost or shifted opaque and address bits.
---
 blocking_cache/CacheDerivedParams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blocking_cache/CacheDerivedParams.py b/blocking_cache/CacheDerivedParams.py
index f37fa79..756cd9f 100644
--- a/blocking_cache/CacheDerivedParams.py
+++ b/blocking_cache/CacheDerivedParams.py
@@ -19,7 +19,7 @@ class CacheDerivedParams:
 
   def __str__( self ):
     return f"BlockingCache_{self.num_bytes}_{self.bitwidth_cacheline}_{self.bitwidth_addr}_"\
-           f"{self.bitwidth_data}_{self.associativity}"
+           f"{self.bitwidth_data}_{self.associativity}_{self.bitwidth_opaque}"
 
   def __init__( self, CacheReqType, CacheRespType, MemReqType, MemRespType,
                 num_bytes, associativity ):
-- 
2.43.0

