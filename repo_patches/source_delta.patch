From 82d670f6723b1f59454abe2b35a814b2157cd037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 01/35] fix: encoder no longer indexes past the target when a
 match ends 5-8 bytes before its end

---
 smdiff-encoder/src/encoder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/smdiff-encoder/src/encoder.rs b/smdiff-encoder/src/encoder.rs
index 2828885..3d3b938 100644
--- a/smdiff-encoder/src/encoder.rs
+++ b/smdiff-encoder/src/encoder.rs
@@ -185,7 +185,10 @@ pub(crate) fn encode_inner(config:&mut GenericEncoderConfig,src:&[u8],trgt:&[u8]
                     if matcher.next_hash_pos <= cur_o_pos{
                         add_start_positions_to_matcher(matcher, cur_o_pos, src)
                     }
-                    if matcher.fwd_pos < matcher.max_fwd_hash_pos{
+                    if cur_o_pos > matcher.max_fwd_hash_pos{
+                        //too close to the end of trgt to hash anything more.
+                        matcher.fwd_pos = matcher.max_fwd_hash_pos;
+                    }else if matcher.fwd_pos < matcher.max_fwd_hash_pos{
                         if matcher.fwd_pos + 9 > cur_o_pos{
                             for old_pos in matcher.fwd_pos..cur_o_pos{
                                 matcher.fwd_hash = update_large_checksum_fwd(matcher.fwd_hash, trgt[old_pos], trgt[old_pos+9]);
-- 
2.43.0


From 49ab7069771dcc72acb5cb998aef788a66f478ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 02/35] fix: target matcher prefill stays inside the target and
 never stores a position twice

---
 smdiff-encoder/src/trgt_matcher.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/smdiff-encoder/src/trgt_matcher.rs b/smdiff-encoder/src/trgt_matcher.rs
index 222e6ec..a519121 100644
--- a/smdiff-encoder/src/trgt_matcher.rs
+++ b/smdiff-encoder/src/trgt_matcher.rs
@@ -168,12 +168,12 @@ impl TrgtMatcherConfig {
         };
         if trgt_start_pos > 0 { //prefill with hash start positions.
             let start = trgt_start_pos.saturating_sub(self.prev_table_capacity.unwrap());
-            let end = trgt_start_pos;
+            //The encoder itself stores trgt_start_pos. Storing it twice would link its chain entry to itself.
+            let end = trgt_start_pos.min(matcher.max_fwd_hash_pos);
             let mut hash = calculate_small_checksum(&trgt[start..]);
-            matcher.store(hash as usize, start);
             for old_pos in start..end{
+                matcher.store(hash as usize, old_pos);
                 hash = update_small_checksum_fwd(hash, trgt[old_pos], trgt[old_pos + 4]);
-                matcher.store(hash as usize, old_pos + 1);
             }
         }
         matcher
-- 
2.43.0


From 4004425fb6d643df6c52c4e6132ee772ce4db34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 03/35] fix: target matcher starts from the real hash of its
 first window, so repeats are found from the start

---
 smdiff-encoder/src/trgt_matcher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smdiff-encoder/src/trgt_matcher.rs b/smdiff-encoder/src/trgt_matcher.rs
index a519121..a4a782f 100644
--- a/smdiff-encoder/src/trgt_matcher.rs
+++ b/smdiff-encoder/src/trgt_matcher.rs
@@ -160,7 +160,7 @@ impl TrgtMatcherConfig {
         let mut matcher = TrgtMatcher{
             compress_early_exit: *compress_early_exit,
             chain_check: *chain_check,
-            fwd_hash: 0,
+            fwd_hash: calculate_small_checksum(&trgt[trgt_start_pos..]),
             fwd_pos: trgt_start_pos,
             table,
             chain: ChainList::new(self.prev_table_capacity.unwrap()),
-- 
2.43.0


From 76c646f65f8c896e5bfb286227a302bc68dcca7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 04/35] fix: any prev_table_capacity is accepted, rounded up to
 a power of two

---
 smdiff-encoder/src/trgt_matcher.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/smdiff-encoder/src/trgt_matcher.rs b/smdiff-encoder/src/trgt_matcher.rs
index a4a782f..eef9885 100644
--- a/smdiff-encoder/src/trgt_matcher.rs
+++ b/smdiff-encoder/src/trgt_matcher.rs
@@ -163,7 +163,10 @@ impl TrgtMatcherConfig {
             fwd_hash: calculate_small_checksum(&trgt[trgt_start_pos..]),
             fwd_pos: trgt_start_pos,
             table,
-            chain: ChainList::new(self.prev_table_capacity.unwrap()),
+            chain: ChainList::new(match self.prev_table_capacity.unwrap() {
+                0 => 0,//no chain at all
+                n => n.next_power_of_two(),
+            }),
             max_fwd_hash_pos: trgt.len().saturating_sub(4),
         };
         if trgt_start_pos > 0 { //prefill with hash start positions.
-- 
2.43.0


From 14c82b5085627379d6548b417e41a24a41d9e74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 05/35] fix: compressed sections are read to their end, so
 empty brotli sections decode and the next section is found

---
 smdiff-decoder/src/reader.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/smdiff-decoder/src/reader.rs b/smdiff-decoder/src/reader.rs
index cb4ee30..ce98f31 100644
--- a/smdiff-decoder/src/reader.rs
+++ b/smdiff-decoder/src/reader.rs
@@ -75,9 +75,11 @@ impl<R: Read+Seek> SectionIterator<R>{
         }else if header.compression_algo == 2 {
             let mut zstd = ruzstd::StreamingDecoder::new(&mut self.source).unwrap();
             read_ops_no_comp(&mut zstd, header,&mut self.ops)?;
+            expect_end_of_stream(&mut zstd)?;
         }else if header.compression_algo == 3 {
             let mut brot = brotlic::DecompressorReader::new(&mut self.source);
             read_ops_no_comp(&mut brot, header,&mut self.ops)?;
+            expect_end_of_stream(&mut brot)?;
             let _ = brot.into_inner()?;
         }else{
             read_ops_no_comp(&mut self.source, header,&mut self.ops)?;
@@ -92,6 +94,15 @@ impl<R: Read+Seek> SectionIterator<R>{
     }
 }
 
+/// Reads up to the end of a compressed section, so that the source is left at the start of the next one.
+/// Errors if there is still data in the section after the last operation.
+fn expect_end_of_stream<R: Read>(reader: &mut R) -> std::io::Result<()> {
+    match reader.read(&mut [0u8;1])? {
+        0 => Ok(()),
+        _ => Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "Compressed section holds more data than its operations")),
+    }
+}
+
 impl<R: Read+Seek> Iterator for SectionIterator<R> {
     type Item = std::io::Result<(Vec<Op>, SectionHeader)>;
 
-- 
2.43.0


From 3bf36736943f885fad658b05e9f9a24b1167cc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 06/35] fix: a corrupt zstd section header is an error, not a
 panic

---
 smdiff-decoder/src/reader.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smdiff-decoder/src/reader.rs b/smdiff-decoder/src/reader.rs
index ce98f31..7e0b36d 100644
--- a/smdiff-decoder/src/reader.rs
+++ b/smdiff-decoder/src/reader.rs
@@ -73,7 +73,8 @@ impl<R: Read+Seek> SectionIterator<R>{
             crsr.rewind()?;
             read_ops_no_comp(&mut crsr, header,&mut self.ops)?;
         }else if header.compression_algo == 2 {
-            let mut zstd = ruzstd::StreamingDecoder::new(&mut self.source).unwrap();
+            let mut zstd = ruzstd::StreamingDecoder::new(&mut self.source)
+                .map_err(|e| std::io::Error::new(std::io::ErrorKind::InvalidData, e.to_string()))?;
             read_ops_no_comp(&mut zstd, header,&mut self.ops)?;
             expect_end_of_stream(&mut zstd)?;
         }else if header.compression_algo == 3 {
-- 
2.43.0


From 0d1b1f7789d6bf5c0038932282a703b0514dfe57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 07/35] fix: a u-varint longer than 64 bits is an error, not an
 overflow

---
 smdiff-common/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smdiff-common/src/lib.rs b/smdiff-common/src/lib.rs
index e04aa51..aa58ad7 100644
--- a/smdiff-common/src/lib.rs
+++ b/smdiff-common/src/lib.rs
@@ -256,6 +256,9 @@ pub fn read_u_varint<R: std::io::Read>(reader: &mut R) -> std::io::Result<u64> {
     loop {
         reader.read_exact(&mut b)?;
         let byte = b[0];
+        if shift == 63 && byte > 1 {
+            return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "u-varint does not fit in 64 bits"));
+        }
         result |= ((byte & 0x7F) as u64) << shift;
         if byte & 0x80 == 0 {
             break;
-- 
2.43.0


From 7aecb7ad5e645ba31af0fdb121aa6bc30ceb4269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 08/35] fix: address differences of 2^63 neither overflow when
 encoded nor when decoded

---
 smdiff-common/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smdiff-common/src/lib.rs b/smdiff-common/src/lib.rs
index aa58ad7..fda8c0c 100644
--- a/smdiff-common/src/lib.rs
+++ b/smdiff-common/src/lib.rs
@@ -322,7 +322,7 @@ pub fn diff_addresses_to_u64(cur: u64, input: i64) -> u64 {
         cur.wrapping_add(input as u64)
     } else {
         // i is negative, so convert the absolute value to u64 and subtract
-        let positive_i = input.abs() as u64; // This is safe because `abs()` of a negative i64 can always fit in u64
+        let positive_i = input.unsigned_abs(); // unlike `abs()`, this is also defined for i64::MIN
         cur.wrapping_sub(positive_i)
     }
 }
@@ -333,7 +333,7 @@ pub fn diff_addresses_to_i64(cur: u64, target: u64) -> i64 {
     if target > cur {
         (target - cur) as i64
     } else {
-        (cur - target) as i64 * -1
+        ((cur - target) as i64).wrapping_neg()
     }
 }
 
-- 
2.43.0


From 300102118512f22c2fa242b8e52b2cd9d7b7693c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 09/35] fix: section header fields that overflow or exceed the
 16MB section limit are rejected

---
 smdiff-reader/src/lib.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/smdiff-reader/src/lib.rs b/smdiff-reader/src/lib.rs
index 2cbe7d1..2c49b1d 100644
--- a/smdiff-reader/src/lib.rs
+++ b/smdiff-reader/src/lib.rs
@@ -9,7 +9,7 @@
 //!
 use std::io::Read;
 
-use smdiff_common::{diff_addresses_to_u64, read_i_varint, read_u16, read_u8, read_u_varint, size_routine, AddOp, Copy, CopySrc, Format, Run, SectionHeader, Size, ADD, COPY_D, COPY_O, OP_MASK, RUN, SECTION_COMPRESSION_MASK, SECTION_COMPRESSION_RSHIFT, SECTION_CONTINUE_BIT, SECTION_FORMAT_BIT, SIZE_MASK};
+use smdiff_common::{diff_addresses_to_u64, read_i_varint, read_u16, read_u8, read_u_varint, size_routine, AddOp, Copy, CopySrc, Format, Run, SectionHeader, Size, ADD, COPY_D, COPY_O, MAX_WIN_SIZE, OP_MASK, RUN, SECTION_COMPRESSION_MASK, SECTION_COMPRESSION_RSHIFT, SECTION_CONTINUE_BIT, SECTION_FORMAT_BIT, SIZE_MASK};
 
 
 /// Op Type alias for the Readers Add type
@@ -37,17 +37,21 @@ pub fn read_section_header<R: std::io::Read>(reader: &mut R) -> std::io::Result<
     let compression_algo = (header_byte & SECTION_COMPRESSION_MASK) >> SECTION_COMPRESSION_RSHIFT;
     let format = if header_byte & SECTION_FORMAT_BIT == SECTION_FORMAT_BIT{Format::Segregated} else {Format::Interleaved};
     let more_sections = (header_byte & SECTION_CONTINUE_BIT) == SECTION_CONTINUE_BIT;
-    let num_operations = read_u_varint(reader)? as u32;
+    let num_operations = read_u32_varint(reader)?;
     let num_add_bytes = if format.is_segregated() {
-        read_u_varint(reader)? as u32
+        read_u32_varint(reader)?
     } else {
         0
     };
-    let read_size = read_u_varint(reader)? as u32;
+    let read_size = read_u32_varint(reader)?;
     let output_size = if format.is_segregated(){
-        num_add_bytes + read_size
+        num_add_bytes.checked_add(read_size)
     }else{
-        read_size
+        Some(read_size)
+    };
+    let output_size = match output_size {
+        Some(size) if size as usize <= MAX_WIN_SIZE => size,
+        _ => return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "Section output size is greater than MAX_WIN_SIZE")),
     };
 
     Ok(SectionHeader {
@@ -60,6 +64,13 @@ pub fn read_section_header<R: std::io::Read>(reader: &mut R) -> std::io::Result<
     })
 }
 
+/// The header fields are all limited to 32 bits.
+fn read_u32_varint<R: std::io::Read>(reader: &mut R) -> std::io::Result<u32> {
+    read_u_varint(reader)?
+        .try_into()
+        .map_err(|_| std::io::Error::new(std::io::ErrorKind::InvalidData, "Section header field does not fit in 32 bits"))
+}
+
 /// Reads the operations from the reader at the current position. Cannot have secondary compression still applied.
 ///
 /// The mutable reference to the section header is so that the
-- 
2.43.0


From 4028634eaf6646aec6bc5db1bb2e19063f6a425c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 10/35] fix: the untrusted operation count no longer decides
 how much memory is reserved

---
 smdiff-reader/src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/smdiff-reader/src/lib.rs b/smdiff-reader/src/lib.rs
index 2c49b1d..53f7389 100644
--- a/smdiff-reader/src/lib.rs
+++ b/smdiff-reader/src/lib.rs
@@ -64,6 +64,9 @@ pub fn read_section_header<R: std::io::Read>(reader: &mut R) -> std::io::Result<
     })
 }
 
+/// The header is untrusted, so this is the most ops we reserve memory for before having read any of them.
+const MAX_OP_RESERVE: usize = 1 << 12;
+
 /// The header fields are all limited to 32 bits.
 fn read_u32_varint<R: std::io::Read>(reader: &mut R) -> std::io::Result<u32> {
     read_u_varint(reader)?
@@ -81,7 +84,7 @@ pub fn read_ops_no_comp<R: std::io::Read>(reader: &mut R, header:&mut SectionHea
     //dbg!(&header);
     let mut cur_d_addr = 0;
     let mut cur_o_addr = 0;
-    op_buffer.reserve(*num_operations as usize);
+    op_buffer.reserve((*num_operations as usize).min(MAX_OP_RESERVE));
     match format {
         Format::Segregated => {
             let buffer_offset = op_buffer.len();
@@ -131,7 +134,7 @@ pub fn read_ops_no_comp<R: std::io::Read>(reader: &mut R, header:&mut SectionHea
 /// This is just a wrapper that completely reads a section from the reader.
 pub fn read_section<R: std::io::Read>(reader: &mut R, op_buffer:&mut Vec<Op>) -> std::io::Result<SectionHeader> {
     let mut header = read_section_header(reader)?;
-    op_buffer.reserve(header.num_operations as usize);
+    op_buffer.reserve((header.num_operations as usize).min(MAX_OP_RESERVE));
     read_ops_no_comp(reader, &mut header, op_buffer)?;
     Ok(header)
 }
-- 
2.43.0


From 754d5e4660f92797c3b19eeb9b2225af8327db7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 11/35] fix: the section header reports the real number of add
 bytes in both formats

---
 smdiff-reader/src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/smdiff-reader/src/lib.rs b/smdiff-reader/src/lib.rs
index 53f7389..24916df 100644
--- a/smdiff-reader/src/lib.rs
+++ b/smdiff-reader/src/lib.rs
@@ -89,6 +89,7 @@ pub fn read_ops_no_comp<R: std::io::Read>(reader: &mut R, header:&mut SectionHea
         Format::Segregated => {
             let buffer_offset = op_buffer.len();
             let mut add_idxs = Vec::new();
+            let mut add_bytes = 0;
             let mut check_size = 0;
             //dbg!(num_operations,output_size,num_add_bytes);
             for i in 0..*num_operations {
@@ -96,7 +97,7 @@ pub fn read_ops_no_comp<R: std::io::Read>(reader: &mut R, header:&mut SectionHea
                 let len = op.oal() as u32;
                 check_size += len;
                 if op.is_add(){
-                    header.num_add_bytes += len;
+                    add_bytes += len;
                     add_idxs.push(buffer_offset+i as usize);
                 }
                 op_buffer.push(op);
@@ -112,18 +113,24 @@ pub fn read_ops_no_comp<R: std::io::Read>(reader: &mut R, header:&mut SectionHea
                     reader.read_exact(&mut add.bytes)?;
                 }
             }
+            header.num_add_bytes = add_bytes;
             Ok(())
         },
         Format::Interleaved => {
             let mut check_size = 0;
+            let mut add_bytes = 0;
             for _ in 0..*num_operations {
                 let op = read_op(reader, &mut cur_d_addr, &mut cur_o_addr,true)?;
                 check_size += op.oal() as u32;
+                if op.is_add(){
+                    add_bytes += op.oal() as u32;
+                }
                 op_buffer.push(op);
             }
             if &check_size != output_size{
                 return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, format!("Window Header output size: {} != Sum(ops.oal()) {}",output_size,check_size)));
             }
+            header.num_add_bytes = add_bytes;
             Ok(())
         }
     }
-- 
2.43.0


From 4b5e91cbddde5c10af37249a050483a7e5ca31bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 12/35] fix: reading stops at the first operation that exceeds
 the section's output size

---
 smdiff-reader/src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/smdiff-reader/src/lib.rs b/smdiff-reader/src/lib.rs
index 24916df..e376cf2 100644
--- a/smdiff-reader/src/lib.rs
+++ b/smdiff-reader/src/lib.rs
@@ -64,6 +64,10 @@ pub fn read_section_header<R: std::io::Read>(reader: &mut R) -> std::io::Result<
     })
 }
 
+fn oversized_section(output_size: u32) -> std::io::Error {
+    std::io::Error::new(std::io::ErrorKind::InvalidData, format!("Window Header output size: {} is less than Sum(ops.oal())",output_size))
+}
+
 /// The header is untrusted, so this is the most ops we reserve memory for before having read any of them.
 const MAX_OP_RESERVE: usize = 1 << 12;
 
@@ -96,6 +100,9 @@ pub fn read_ops_no_comp<R: std::io::Read>(reader: &mut R, header:&mut SectionHea
                 let op = read_op(reader, &mut cur_d_addr, &mut cur_o_addr,false)?;
                 let len = op.oal() as u32;
                 check_size += len;
+                if check_size > *output_size{
+                    return Err(oversized_section(*output_size));
+                }
                 if op.is_add(){
                     add_bytes += len;
                     add_idxs.push(buffer_offset+i as usize);
@@ -122,6 +129,9 @@ pub fn read_ops_no_comp<R: std::io::Read>(reader: &mut R, header:&mut SectionHea
             for _ in 0..*num_operations {
                 let op = read_op(reader, &mut cur_d_addr, &mut cur_o_addr,true)?;
                 check_size += op.oal() as u32;
+                if check_size > *output_size{
+                    return Err(oversized_section(*output_size));
+                }
                 if op.is_add(){
                     add_bytes += op.oal() as u32;
                 }
-- 
2.43.0


From 5b401531012d1468c647616da651d49cd60478eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 13/35] fix: zero length operations are rejected, as the spec
 does not allow them

---
 smdiff-reader/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smdiff-reader/src/lib.rs b/smdiff-reader/src/lib.rs
index e376cf2..d602b4d 100644
--- a/smdiff-reader/src/lib.rs
+++ b/smdiff-reader/src/lib.rs
@@ -199,6 +199,9 @@ pub fn read_op<R: std::io::Read>(reader: &mut R,cur_d_addr:&mut u64,cur_o_addr:&
         Size::U8And62 => read_u8(reader)? as u16 + 62,
         Size::U16 => read_u16(reader)?,
     };
+    if size == 0 {
+        return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "Zero length operation"));
+    }
     let op = match op {
         OpType::Copy { src } => {
             let addr = read_i_varint(reader)?;
-- 
2.43.0


From a8ce11ea5dceba242bb499bf7e3da6a24e448a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 14/35] fix: a section whose add byte count disagrees with its
 operations is rejected

---
 smdiff-reader/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/smdiff-reader/src/lib.rs b/smdiff-reader/src/lib.rs
index d602b4d..c358497 100644
--- a/smdiff-reader/src/lib.rs
+++ b/smdiff-reader/src/lib.rs
@@ -112,6 +112,9 @@ pub fn read_ops_no_comp<R: std::io::Read>(reader: &mut R, header:&mut SectionHea
             if &check_size != output_size{
                 return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, format!("Window Header output size: {} != Sum(ops.oal()) {}",output_size,check_size)));
             }
+            if add_bytes != header.num_add_bytes{
+                return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, format!("Window Header add bytes: {} != Sum(adds) {}",header.num_add_bytes,add_bytes)));
+            }
             //reader should be at the end of the instructions
             //now we go back and fill the add op buffers
             for i in add_idxs{
@@ -120,7 +123,6 @@ pub fn read_ops_no_comp<R: std::io::Read>(reader: &mut R, header:&mut SectionHea
                     reader.read_exact(&mut add.bytes)?;
                 }
             }
-            header.num_add_bytes = add_bytes;
             Ok(())
         },
         Format::Interleaved => {
-- 
2.43.0


From f5459180714ca8ed88ccf00ca5c29639d7107b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 15/35] fix: a dictionary copy without a source is an error,
 not a panic

---
 smdiff-decoder/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smdiff-decoder/src/lib.rs b/smdiff-decoder/src/lib.rs
index 6141ec4..556d8a7 100644
--- a/smdiff-decoder/src/lib.rs
+++ b/smdiff-decoder/src/lib.rs
@@ -67,7 +67,7 @@ fn apply_ops<R:Read+Seek,W:Write+Read+Seek>(ops:&[smdiff_reader::Op],src:&mut Op
                     smdiff_common::CopySrc::Dict => {
                         let src = match src.as_mut(){
                             Some(s) => s,
-                            None => panic!("Copy operation without source data"),
+                            None => return Err(std::io::Error::new(std::io::ErrorKind::InvalidInput, "Copy operation without source data")),
                         };
                         src.seek(std::io::SeekFrom::Start(copy.addr))?;
                         let len = copy.len as usize;
-- 
2.43.0


From ce19041215919b4cf15b35d9b73052feb60d56e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 16/35] fix: an output copy can only read output that was
 generated before it

---
 smdiff-decoder/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smdiff-decoder/src/lib.rs b/smdiff-decoder/src/lib.rs
index 556d8a7..adef5b3 100644
--- a/smdiff-decoder/src/lib.rs
+++ b/smdiff-decoder/src/lib.rs
@@ -77,6 +77,9 @@ fn apply_ops<R:Read+Seek,W:Write+Read+Seek>(ops:&[smdiff_reader::Op],src:&mut Op
                     },
                     smdiff_common::CopySrc::Output => {
                         let start_pos = *cur_o_pos;
+                        if copy.addr.checked_add(copy.len as u64).map_or(true, |end| end > start_pos as u64) {
+                            return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "Copy operation from output that is not generated yet"));
+                        }
                         cur_o.seek(std::io::SeekFrom::Start(copy.addr as u64))?;
                         let len = copy.len as usize;
                         cur_o.read_exact(&mut copy_buffer[..len])?;
-- 
2.43.0


From 5834ba6c0aa4f127191d50fb828eeb2732075d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 17/35] fix: extraction stats count every copy once

---
 smdiff-merger/src/lib.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/smdiff-merger/src/lib.rs b/smdiff-merger/src/lib.rs
index ec50168..b45d1b2 100644
--- a/smdiff-merger/src/lib.rs
+++ b/smdiff-merger/src/lib.rs
@@ -196,8 +196,6 @@ pub fn extract_patch_instructions<R:Read + Seek>(patch:R)->std::io::Result<(Vec<
                         },
                     }
                     output.push((o_pos_start,inst));
-                    stats.copy_d(oal_len);
-
                 },
                 smdiff_common::Op::Add(_) => {
                     output.push((o_pos_start,inst));
-- 
2.43.0


From 908c5a73c63466aff543748133bbb3583cd64da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 18/35] fix: extracting a patch with an impossible output copy
 is an error, not a later panic

---
 smdiff-merger/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smdiff-merger/src/lib.rs b/smdiff-merger/src/lib.rs
index b45d1b2..fc736bd 100644
--- a/smdiff-merger/src/lib.rs
+++ b/smdiff-merger/src/lib.rs
@@ -192,6 +192,9 @@ pub fn extract_patch_instructions<R:Read + Seek>(patch:R)->std::io::Result<(Vec<
                             stats.copy_d(oal_len);
                         },
                         smdiff_common::CopySrc::Output => {
+                            if c.addr.checked_add(c.len as u64).map_or(true, |end| end > o_pos_start) {
+                                return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "Copy operation from output that is not generated yet"));
+                            }
                             stats.copy_o(oal_len);
                         },
                     }
-- 
2.43.0


From 2d6544f279352e72761f4472de573ef7948910df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 19/35] fix: a terminal patch with only output copies yields a
 SummaryPatch instead of a failed assertion

---
 smdiff-merger/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/smdiff-merger/src/lib.rs b/smdiff-merger/src/lib.rs
index fc736bd..7f952aa 100644
--- a/smdiff-merger/src/lib.rs
+++ b/smdiff-merger/src/lib.rs
@@ -283,7 +283,10 @@ impl Merger {
         //will need to check this.
         let terminal_patch = deref_copy_o(terminal_patch);
         find_mergeable_copies(&terminal_patch,0,&mut terminal_copy_indices);
-        debug_assert!(!terminal_copy_indices.is_empty(), "terminal_copy_indices should not be empty");
+        if terminal_copy_indices.is_empty(){
+            //all copies were from the output, so no predecessor can have any effect.
+            return Ok(Err(SummaryPatch(terminal_patch.into_iter().map(|s|s.1).collect())));
+        }
         Ok(Ok(Merger{
             terminal_patch,
             terminal_copy_indices,
-- 
2.43.0


From 802182aa2fc047e21c200e8ff75b836122c1d1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 20/35] fix: merging a patch that reads past its predecessor's
 output is an error, not a panic

---
 smdiff-merger/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smdiff-merger/src/lib.rs b/smdiff-merger/src/lib.rs
index 7f952aa..900212d 100644
--- a/smdiff-merger/src/lib.rs
+++ b/smdiff-merger/src/lib.rs
@@ -322,7 +322,8 @@ impl Merger {
             //this a src window copy that we need to resolve from the predecessor patch.
             debug_assert!(matches!(copy.src, smdiff_common::CopySrc::Dict));
             let o_start = copy.addr; //ssp is o_pos, u is offset from that.
-            let resolved = get_exact_slice(&predecessor_patch, o_start, copy.len as u32).unwrap();
+            let resolved = get_exact_slice(&predecessor_patch, o_start, copy.len as u32)
+                .ok_or_else(|| std::io::Error::new(std::io::ErrorKind::InvalidData, "Copy operation outside of the predecessor's output"))?;
             //debug_assert_eq!(sum_len_in_o(&resolved), copy.len_in_o() as u64, "resolved: {:?} copy: {:?}",resolved,copy);
             find_mergeable_copies(&resolved, i+shift, &mut terminal_copy_indices);
             shift += resolved.len() - 1;
-- 
2.43.0


From 12d8e81fa0b5333e7cc83a4d809d7f321950d914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 21/35] fix: a patch without operations can be transcoded

---
 smdiff-merger/src/transcoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smdiff-merger/src/transcoder.rs b/smdiff-merger/src/transcoder.rs
index de2c759..561a65e 100644
--- a/smdiff-merger/src/transcoder.rs
+++ b/smdiff-merger/src/transcoder.rs
@@ -84,7 +84,7 @@ fn optimize_and_convert_ops(mut ops: Vec<InnerOp>)->Vec<Op> {
 
 fn join_adjacent_adds(ops: &mut Vec<InnerOp>) {
     let mut i = 0;
-    while i < ops.len() - 1 {
+    while i + 1 < ops.len() {
         let (left, right) = ops.split_at_mut(i + 1);
         if let (Some(InnerOp::Add(first)), Some(InnerOp::Add(second))) = (left.last_mut(), right.first_mut()) {
             if !second.is_empty() && first.len() < MAX_INST_SIZE as usize {
@@ -98,7 +98,7 @@ fn join_adjacent_adds(ops: &mut Vec<InnerOp>) {
 
 fn join_adjacent_runs(ops: &mut Vec<InnerOp>) {
     let mut i = 0;
-    while i < ops.len() - 1 {
+    while i + 1 < ops.len() {
         let (left, right) = ops.split_at_mut(i + 1);
         if let (Some(InnerOp::Run { byte: byte1, len: len1,.. }), Some(InnerOp::Run { byte: byte2, len: len2, .. })) = (left.last_mut(), right.first_mut()) {
             if byte1 == byte2 {
-- 
2.43.0


From 368a36e52a82b5748fa82cd3820e65b78c2bfb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:25 +0000
Subject: [PATCH 22/35] fix: operations with a length the format cannot express
 are an error instead of a panic or a corrupt patch

---
 smdiff-writer/src/lib.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/smdiff-writer/src/lib.rs b/smdiff-writer/src/lib.rs
index 5bd9944..53e845f 100644
--- a/smdiff-writer/src/lib.rs
+++ b/smdiff-writer/src/lib.rs
@@ -1,7 +1,7 @@
 //! This lib is used to *construct* valid SMDIFF format delta files.
 //! This is *not* an encoder.
 //! However, if you did write an encoder this would help you write the ops to a file.
-use smdiff_common::{diff_addresses_to_i64, size_routine, write_i_varint, write_u16, write_u8, write_u_varint, AddOp, Copy, CopySrc, Format, Op, SectionHeader, Size, MAX_INST_SIZE, MAX_WIN_SIZE, SECTION_COMPRESSION_RSHIFT, SECTION_CONTINUE_BIT, SECTION_FORMAT_BIT, SIZE_MASK};
+use smdiff_common::{diff_addresses_to_i64, size_routine, write_i_varint, write_u16, write_u8, write_u_varint, AddOp, Copy, CopySrc, Format, Op, SectionHeader, Size, MAX_INST_SIZE, MAX_RUN_LEN, MAX_WIN_SIZE, SECTION_COMPRESSION_RSHIFT, SECTION_CONTINUE_BIT, SECTION_FORMAT_BIT, SIZE_MASK};
 
 
 /// Used to write the header to the section.
@@ -44,6 +44,7 @@ pub fn write_ops<W: std::io::Write,A:AddOp>(ops: &[Op<A>], header:&SectionHeader
     let mut add_bytes_written = 0;
     let mut add_bytes_slices = Vec::new();
     for op in ops {
+        check_op_len(op)?;
         total_content_len += op.oal() as usize;
         write_op_byte_and_size(writer, &op)?;
         match header.format{
@@ -75,6 +76,19 @@ pub fn write_ops<W: std::io::Write,A:AddOp>(ops: &[Op<A>], header:&SectionHeader
 }
 
 
+/// An operation outside of these limits has no representation in the format.
+fn check_op_len<A:AddOp>(op: &Op<A>) -> std::io::Result<()> {
+    let (len, max) = match op {
+        Op::Add(add) => (add.bytes().len(), MAX_INST_SIZE),
+        Op::Copy(copy) => (copy.len as usize, MAX_INST_SIZE),
+        Op::Run(run) => (run.len as usize, MAX_RUN_LEN as usize),
+    };
+    if len == 0 || len > max {
+        return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, format!("Operation length {} is not in 1..={}", len, max)));
+    }
+    Ok(())
+}
+
 fn write_op_byte_and_size<W: std::io::Write,A:AddOp>(writer: &mut W, op: &Op<A>) -> std::io::Result<()> {
     let byte = op.bit_flag();
     let size = size_routine(op.oal());
-- 
2.43.0


From 37ec8a22dc9d1b4518d3049b01b4037ffb8d2135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:25 +0000
Subject: [PATCH 23/35] fix: a header with more add bytes than output is an
 error, not an overflow

---
 smdiff-writer/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smdiff-writer/src/lib.rs b/smdiff-writer/src/lib.rs
index 53e845f..c3157a1 100644
--- a/smdiff-writer/src/lib.rs
+++ b/smdiff-writer/src/lib.rs
@@ -19,7 +19,8 @@ pub fn write_section_header<W: std::io::Write>(header: &SectionHeader, writer:&m
     write_u_varint(writer, header.num_operations as u64)?;
     let output_size = if header.format == Format::Segregated {
         write_u_varint(writer, header.num_add_bytes as u64)?;
-        header.output_size - header.num_add_bytes
+        header.output_size.checked_sub(header.num_add_bytes)
+            .ok_or_else(|| std::io::Error::new(std::io::ErrorKind::InvalidData, "Number of add bytes is greater than the output size"))?
     } else {
         header.output_size
     };
-- 
2.43.0


From 810d3c2011853bee868761f1ab27f25e9b50a189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:39 +0000
Subject: [PATCH 24/35] fix: a compression algorithm that does not fit the
 control byte is an error, not another header

---
 smdiff-writer/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/smdiff-writer/src/lib.rs b/smdiff-writer/src/lib.rs
index c3157a1..280e891 100644
--- a/smdiff-writer/src/lib.rs
+++ b/smdiff-writer/src/lib.rs
@@ -1,13 +1,16 @@
 //! This lib is used to *construct* valid SMDIFF format delta files.
 //! This is *not* an encoder.
 //! However, if you did write an encoder this would help you write the ops to a file.
-use smdiff_common::{diff_addresses_to_i64, size_routine, write_i_varint, write_u16, write_u8, write_u_varint, AddOp, Copy, CopySrc, Format, Op, SectionHeader, Size, MAX_INST_SIZE, MAX_RUN_LEN, MAX_WIN_SIZE, SECTION_COMPRESSION_RSHIFT, SECTION_CONTINUE_BIT, SECTION_FORMAT_BIT, SIZE_MASK};
+use smdiff_common::{diff_addresses_to_i64, size_routine, write_i_varint, write_u16, write_u8, write_u_varint, AddOp, Copy, CopySrc, Format, Op, SectionHeader, Size, MAX_INST_SIZE, MAX_RUN_LEN, MAX_WIN_SIZE, SECTION_COMPRESSION_MASK, SECTION_COMPRESSION_RSHIFT, SECTION_CONTINUE_BIT, SECTION_FORMAT_BIT, SIZE_MASK};
 
 
 /// Used to write the header to the section.
 /// * `header` - The header to write.
 /// * `writer` - The writer to write to.
 pub fn write_section_header<W: std::io::Write>(header: &SectionHeader, writer:&mut W) -> std::io::Result<()> {
+    if header.compression_algo > SECTION_COMPRESSION_MASK >> SECTION_COMPRESSION_RSHIFT {
+        return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "Compression algorithm does not fit the control byte"));
+    }
     let mut cntl_byte = header.compression_algo << SECTION_COMPRESSION_RSHIFT;
     if let Format::Segregated = header.format {
         cntl_byte |= SECTION_FORMAT_BIT;  // Set format bit
-- 
2.43.0


From 7a0bd12be481cba7a151fb407e125bda8bda8978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:31 +0000
Subject: [PATCH 25/35] fix: naive tests do not refer to the source when source
 matching is off

---
 smdiff-encoder/src/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smdiff-encoder/src/encoder.rs b/smdiff-encoder/src/encoder.rs
index 3d3b938..45e7091 100644
--- a/smdiff-encoder/src/encoder.rs
+++ b/smdiff-encoder/src/encoder.rs
@@ -128,7 +128,7 @@ pub(crate) fn encode_inner(config:&mut GenericEncoderConfig,src:&[u8],trgt:&[u8]
     let mut ops = Vec::new();
     let mut max_trgt_match_len = trgt_len;
     let mut cur_o_pos = 0;
-    if trgt_len > src_len && naive_tests.is_some(){ //do naive tests if indicated and valid
+    if trgt_len > src_len && naive_tests.is_some() && config.match_src.is_some(){ //do naive tests if indicated and valid
         //try tests
         let naive_tests = naive_tests.unwrap();
         let handle_start_match = |segs: &mut Vec<InnerOp>, cur_o: &mut usize| {
-- 
2.43.0


From 207160648cb0e5f718ecbc7dabcb0af4136cd497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 26/35] fix: extracting a dictionary copy past the last address
 is an error, not a later overflow

---
 smdiff-merger/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smdiff-merger/src/lib.rs b/smdiff-merger/src/lib.rs
index 900212d..8702be5 100644
--- a/smdiff-merger/src/lib.rs
+++ b/smdiff-merger/src/lib.rs
@@ -189,6 +189,9 @@ pub fn extract_patch_instructions<R:Read + Seek>(patch:R)->std::io::Result<(Vec<
                 smdiff_common::Op::Copy(c) => {
                     match c.src{
                         smdiff_common::CopySrc::Dict => {
+                            if c.addr.checked_add(c.len as u64).is_none() {
+                                return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "Copy operation outside of any source"));
+                            }
                             stats.copy_d(oal_len);
                         },
                         smdiff_common::CopySrc::Output => {
-- 
2.43.0


From f026e2612fc1f39aac5edfdf09098fd971df148b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:32 +0000
Subject: [PATCH 27/35] fix: converting a VCDIFF run no longer prints into
 stdout

---
 smdiff-vcdiff/src/lib.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/smdiff-vcdiff/src/lib.rs b/smdiff-vcdiff/src/lib.rs
index 8e28dde..69910f6 100644
--- a/smdiff-vcdiff/src/lib.rs
+++ b/smdiff-vcdiff/src/lib.rs
@@ -76,7 +76,6 @@ pub fn convert_vcdiff_to_smdiff<R: std::io::Read+Seek, W: std::io::Write>(reader
                             cur_o_pos += len as u64;
                         },
                         Inst::Run(RUN{ len, byte }) => {
-                            println!("Run @{}: of: {} let: {}",cur_o_pos,byte,len);
                             let total: u32 = len;
                             let mut processed: u32 = 0;
                             while processed < total {
-- 
2.43.0


From 0cf04bc17b39a1af946d9b652c6d9e9b42c69468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:32 +0000
Subject: [PATCH 28/35] fix: periodic VCDIFF copies with a period above 65535
 are not truncated

---
 smdiff-vcdiff/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/smdiff-vcdiff/src/lib.rs b/smdiff-vcdiff/src/lib.rs
index 69910f6..b2e775f 100644
--- a/smdiff-vcdiff/src/lib.rs
+++ b/smdiff-vcdiff/src/lib.rs
@@ -131,7 +131,7 @@ pub fn convert_vcdiff_to_smdiff<R: std::io::Read+Seek, W: std::io::Write>(reader
                                 let mut processed: u32 = 0;
                                 while processed < total {
                                     let remaining = total - processed;
-                                    let chunk_size = remaining.min(slice_len);
+                                    let chunk_size = remaining.min(slice_len).min(MAX_INST_SIZE);
                                     //dbg!(slice_len,chunk_size);
                                     if cur_win_size + chunk_size > MAX_WIN_SIZE as u32{
                                         let header = SectionHeader {
@@ -151,6 +151,10 @@ pub fn convert_vcdiff_to_smdiff<R: std::io::Read+Seek, W: std::io::Write>(reader
                                     }
                                     let op = Op::Copy(Copy{ src, addr, len: chunk_size as u16 });
                                     cur_win.push(op);
+                                    if slice_len > MAX_INST_SIZE {
+                                        // The period does not fit in one operation, so follow it through the output.
+                                        addr += chunk_size as u64;
+                                    }
                                     processed += chunk_size;
                                     cur_win_size += chunk_size;
 
-- 
2.43.0


From a603a059d0d8f2b4db60bfa4cd89f63e3b54914c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:33 +0000
Subject: [PATCH 29/35] fix: a VCDIFF copy from a source segment that does not
 exist is an error, not a panic

---
 smdiff-vcdiff/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smdiff-vcdiff/src/lib.rs b/smdiff-vcdiff/src/lib.rs
index b2e775f..ac63596 100644
--- a/smdiff-vcdiff/src/lib.rs
+++ b/smdiff-vcdiff/src/lib.rs
@@ -108,8 +108,8 @@ pub fn convert_vcdiff_to_smdiff<R: std::io::Read+Seek, W: std::io::Write>(reader
                         Inst::Copy(copy) =>{
                             let (mut addr,src,seq) = match copy.copy_type{
                                 CopyType::CopyS => {
-                                    let ssp = ssp.expect("SSP not set");
-                                    let addr = ssp+copy.u_pos as u64;
+                                    let addr = ssp.and_then(|ssp: u64| ssp.checked_add(copy.u_pos as u64))
+                                        .ok_or_else(|| std::io::Error::new(std::io::ErrorKind::InvalidData, "VCDIFF copy from a source segment that does not exist"))?;
                                     let src = if vcd_trgt {CopySrc::Output}else{CopySrc::Dict};
                                     (addr,src,None)
                                 },
-- 
2.43.0


From 655ed65d87704d0999bacda1e1be7755500a494a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:08 +0000
Subject: [PATCH 30/35] fix: a VCDIFF window that does not produce its declared
 size is an error, not a wrong patch

---
 smdiff-vcdiff/src/lib.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/smdiff-vcdiff/src/lib.rs b/smdiff-vcdiff/src/lib.rs
index ac63596..42a8905 100644
--- a/smdiff-vcdiff/src/lib.rs
+++ b/smdiff-vcdiff/src/lib.rs
@@ -27,9 +27,11 @@ pub fn convert_vcdiff_to_smdiff<R: std::io::Read+Seek, W: std::io::Write>(reader
     let mut cur_o_pos = 0;
     let mut cur_win_size = 0;
     let mut num_add_bytes = 0;
+    let mut win_remaining = 0; //bytes of the current window's target the instructions have yet to produce
     loop{
         match reader.next()?{
             VCDiffReadMsg::WindowSummary(ws) => {
+                win_remaining = ws.size_of_the_target_window;
                 ssp = ws.source_segment_position;
                 if ws.win_indicator == WinIndicator::VCD_TARGET{
                     vcd_trgt = true;
@@ -41,6 +43,8 @@ pub fn convert_vcdiff_to_smdiff<R: std::io::Read+Seek, W: std::io::Write>(reader
                         continue;
                     }
                     let inst = inst.unwrap();
+                    win_remaining = win_remaining.checked_sub(inst.len_in_o() as u64)
+                        .ok_or_else(|| std::io::Error::new(std::io::ErrorKind::InvalidData, "VCDIFF instructions exceed the size of their target window"))?;
                     match inst{
                         Inst::Add(ADD{ len, p_pos }) => {
                             let r = reader.get_reader(p_pos)?;
@@ -196,10 +200,15 @@ pub fn convert_vcdiff_to_smdiff<R: std::io::Read+Seek, W: std::io::Write>(reader
                 }
             },
             VCDiffReadMsg::EndOfWindow => {
+                check_window_complete(win_remaining)?;
                 ssp = None;
                 vcd_trgt = false;
             },
-            VCDiffReadMsg::EndOfFile => break,
+            VCDiffReadMsg::EndOfFile => {
+                //the reader also reports the end when the file stops inside of a window
+                check_window_complete(win_remaining)?;
+                break
+            },
         }
     }
     //dbg!(cur_o_pos);
@@ -218,6 +227,14 @@ pub fn convert_vcdiff_to_smdiff<R: std::io::Read+Seek, W: std::io::Write>(reader
     Ok(())
 }
 
+/// A window that does not produce what it declares is damaged, or uses periodic copies the reader understands differently.
+fn check_window_complete(win_remaining: u64) -> std::io::Result<()> {
+    if win_remaining != 0 {
+        return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "VCDIFF instructions fall short of the size of their target window"));
+    }
+    Ok(())
+}
+
 #[cfg(test)]
 mod test_super {
     use std::io::Cursor;
-- 
2.43.0


From 3253accaa390dac1e372d47bc57f9ed6faafd153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:36 +0000
Subject: [PATCH 31/35] fix: a section that failed leaves nothing behind in the
 buffer of the next compressed section

---
 smdiff-encoder/src/writer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/smdiff-encoder/src/writer.rs b/smdiff-encoder/src/writer.rs
index e49ad66..006eda9 100644
--- a/smdiff-encoder/src/writer.rs
+++ b/smdiff-encoder/src/writer.rs
@@ -21,6 +21,7 @@ pub fn section_writer<W:Write,A:AddOp>(
         header.compression_algo = comp.algo_value();
         //dbg!(&header);
         write_section_header(&header, writer)?;
+        sec_data_buffer.clear(); // a section that failed may have left something behind
         write_ops(seg_ops,&header,sec_data_buffer)?;
         match comp{
             SecondaryCompression::Smdiff (config) => {
-- 
2.43.0


From c3363140464b750139a03ca173672584bb78c81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:59 +0000
Subject: [PATCH 32/35] fix: refuse VCDIFF headers and windows the reader does
 not support instead of panicking

An application-defined code table, a secondary compressor or an unknown window
indicator made the conversion panic (and a code table allocated whatever size
it declared); an application header was read as a window; a window without
instructions panicked as well.
---
 smdiff-vcdiff/src/lib.rs | 41 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/smdiff-vcdiff/src/lib.rs b/smdiff-vcdiff/src/lib.rs
index 42a8905..94dd160 100644
--- a/smdiff-vcdiff/src/lib.rs
+++ b/smdiff-vcdiff/src/lib.rs
@@ -19,14 +19,17 @@ impl AddOp for Add{
     }
 }
 
-pub fn convert_vcdiff_to_smdiff<R: std::io::Read+Seek, W: std::io::Write>(reader: R, mut writer: W) -> std::io::Result<()> {
+pub fn convert_vcdiff_to_smdiff<R: std::io::Read+Seek, W: std::io::Write>(mut reader: R, mut writer: W) -> std::io::Result<()> {
     let mut cur_win = Vec::new();
+    check_header(&mut reader)?;
     let mut reader = VCDReader::new(reader)?;
+    check_window_indicator(&mut reader, HEADER_SIZE)?;
     let mut ssp = None;
     let mut vcd_trgt = false;
     let mut cur_o_pos = 0;
     let mut cur_win_size = 0;
     let mut num_add_bytes = 0;
+    let mut next_win_pos = HEADER_SIZE;
     let mut win_remaining = 0; //bytes of the current window's target the instructions have yet to produce
     loop{
         match reader.next()?{
@@ -36,6 +39,15 @@ pub fn convert_vcdiff_to_smdiff<R: std::io::Read+Seek, W: std::io::Write>(reader
                 if ws.win_indicator == WinIndicator::VCD_TARGET{
                     vcd_trgt = true;
                 }
+                next_win_pos = ws.end_of_window();
+                if ws.length_of_instructions_and_sizes == 0 {
+                    //the reader expects at least one instruction in a window
+                    check_window_complete(win_remaining)?;
+                    check_window_indicator(&mut reader, next_win_pos)?;
+                    reader.seek_to_window(next_win_pos);
+                    ssp = None;
+                    vcd_trgt = false;
+                }
             },
             VCDiffReadMsg::Inst { first, second } => {
                 for inst in [Some(first), second]{
@@ -201,6 +213,7 @@ pub fn convert_vcdiff_to_smdiff<R: std::io::Read+Seek, W: std::io::Write>(reader
             },
             VCDiffReadMsg::EndOfWindow => {
                 check_window_complete(win_remaining)?;
+                check_window_indicator(&mut reader, next_win_pos)?;
                 ssp = None;
                 vcd_trgt = false;
             },
@@ -227,6 +240,32 @@ pub fn convert_vcdiff_to_smdiff<R: std::io::Read+Seek, W: std::io::Write>(reader
     Ok(())
 }
 
+/// Size of a header that uses none of the optional features.
+const HEADER_SIZE: u64 = 5;
+
+/// The reader supports neither secondary compressors, application-defined code tables nor application headers (it panics, or takes them for a window).
+fn check_header<R: std::io::Read+Seek>(reader: &mut R) -> std::io::Result<()> {
+    let mut header = [0u8; HEADER_SIZE as usize];
+    reader.seek(std::io::SeekFrom::Start(0))?;
+    reader.read_exact(&mut header)?;
+    if header[4] != 0 {
+        return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "VCDIFF header uses unsupported features"));
+    }
+    Ok(())
+}
+
+/// The reader panics on a window indicator it does not know, so look at the one at `pos` (if there is a further window) first.
+fn check_window_indicator<R: std::io::Read+Seek>(reader: &mut VCDReader<R>, pos: u64) -> std::io::Result<()> {
+    let mut indicator = [0u8];
+    match reader.read_from_src(pos, &mut indicator) {
+        Ok(()) if indicator[0] > WinIndicator::VCD_TARGET.to_u8() => {
+            Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "VCDIFF window uses unsupported features"))
+        },
+        Err(e) if e.kind() != std::io::ErrorKind::UnexpectedEof => Err(e),
+        _ => Ok(()),
+    }
+}
+
 /// A window that does not produce what it declares is damaged, or uses periodic copies the reader understands differently.
 fn check_window_complete(win_remaining: u64) -> std::io::Result<()> {
     if win_remaining != 0 {
-- 
2.43.0


From 6f604c6cf995da1e66ee90ef4823118230429bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:50 +0000
Subject: [PATCH 33/35] fix: the source window moves on while the encoder has
 no match, not only at the start of the next one

---
 smdiff-encoder/src/encoder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/smdiff-encoder/src/encoder.rs b/smdiff-encoder/src/encoder.rs
index 45e7091..818eb1f 100644
--- a/smdiff-encoder/src/encoder.rs
+++ b/smdiff-encoder/src/encoder.rs
@@ -312,6 +312,10 @@ pub(crate) fn encode_inner(config:&mut GenericEncoderConfig,src:&[u8],trgt:&[u8]
                     }
                 }
                 if let Some(m) = src_matcher.as_mut(){
+                    if m.next_hash_pos <= cur_o_pos{
+                        //without this the window would stay where it is until the next match, which it may no longer hold
+                        add_start_positions_to_matcher(m, cur_o_pos, src)
+                    }
                     if m.fwd_pos < m.max_fwd_hash_pos{
                         m.fwd_hash = update_large_checksum_fwd(m.fwd_hash, trgt[cur_o_pos], trgt[cur_o_pos+9]);
                         m.fwd_pos = cur_o_pos+1;
-- 
2.43.0


From 43615fcb8461b4b63276382109b733327a6154b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:09 +0000
Subject: [PATCH 34/35] fix: an algorithm 1 section holding more data than its
 operations is refused like the other algorithms

---
 smdiff-decoder/src/reader.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/smdiff-decoder/src/reader.rs b/smdiff-decoder/src/reader.rs
index 7e0b36d..45cba2a 100644
--- a/smdiff-decoder/src/reader.rs
+++ b/smdiff-decoder/src/reader.rs
@@ -72,6 +72,7 @@ impl<R: Read+Seek> SectionIterator<R>{
             apply_no_sec_comp::<_,R,_>(&mut self.source, None, &mut crsr)?;
             crsr.rewind()?;
             read_ops_no_comp(&mut crsr, header,&mut self.ops)?;
+            expect_end_of_stream(&mut crsr)?;
         }else if header.compression_algo == 2 {
             let mut zstd = ruzstd::StreamingDecoder::new(&mut self.source)
                 .map_err(|e| std::io::Error::new(std::io::ErrorKind::InvalidData, e.to_string()))?;
-- 
2.43.0


From 90e078559e15b452a470d3255f607bfbef190f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:09 +0000
Subject: [PATCH 35/35] fix: a VCDIFF delta that ends within a window or its
 header is refused instead of converted as if it were complete

---
 smdiff-vcdiff/src/lib.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/smdiff-vcdiff/src/lib.rs b/smdiff-vcdiff/src/lib.rs
index 94dd160..2eb3b03 100644
--- a/smdiff-vcdiff/src/lib.rs
+++ b/smdiff-vcdiff/src/lib.rs
@@ -220,6 +220,7 @@ pub fn convert_vcdiff_to_smdiff<R: std::io::Read+Seek, W: std::io::Write>(mut re
             VCDiffReadMsg::EndOfFile => {
                 //the reader also reports the end when the file stops inside of a window
                 check_window_complete(win_remaining)?;
+                check_ends_at(&mut reader, next_win_pos)?;
                 break
             },
         }
@@ -274,6 +275,17 @@ fn check_window_complete(win_remaining: u64) -> std::io::Result<()> {
     Ok(())
 }
 
+/// The reader also reports the end of the file when it stops inside of a window or of the header of one, so look where it really ends.
+fn check_ends_at<R: std::io::Read+Seek>(reader: &mut VCDReader<R>, pos: u64) -> std::io::Result<()> {
+    let mut byte = [0u8];
+    reader.read_from_src(pos - 1, &mut byte)?;
+    match reader.read_from_src(pos, &mut byte) {
+        Ok(()) => Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "VCDIFF ends inside of the header of a window")),
+        Err(e) if e.kind() != std::io::ErrorKind::UnexpectedEof => Err(e),
+        Err(_) => Ok(()),
+    }
+}
+
 #[cfg(test)]
 mod test_super {
     use std::io::Cursor;
-- 
2.43.0

