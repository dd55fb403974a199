From 2941212b5fa69ec6163a8f2807b828bd90addcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:44 +0000
Subject: [PATCH 01/32] fix: make room in the bytecode heap before every
 allocation

A value larger than the free space left in the heap (a long string, a closure
with many captures, a big constant) made the bytecode engine panic instead of
collecting and growing the heap.
---
 ticc-eval/src/bytecode.rs | 28 ++++++++++++++++++++++++----
 ticc-eval/src/heap.rs     | 12 +++++++++---
 ticc-eval/src/jit.rs      |  2 +-
 3 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/ticc-eval/src/bytecode.rs b/ticc-eval/src/bytecode.rs
index 00b61e1..42ac5a3 100644
--- a/ticc-eval/src/bytecode.rs
+++ b/ticc-eval/src/bytecode.rs
@@ -77,6 +77,10 @@ pub fn eval(program: &ir::Program<'_>, exprs: &[ir::Expr]) -> Result<Vec<crate::
     let mut consts = Vec::new();
     let compile_ops = crate::compile::compile(program, exprs);
     let (ops, ctor_tags) = link(&mut heap, &mut consts, compile_ops);
+    let bools_size = Heap::alloc_size(0) * 2;
+    if heap.free_space() < bools_size {
+        heap.collect_and_grow(consts.iter_mut(), bools_size);
+    }
     let false_obj = heap.alloc_object(0, 0).addr;
     let true_obj = heap.alloc_object(1, 0).addr;
     let mut runtime = Runtime {
@@ -260,6 +264,7 @@ impl Runtime {
                     }
                 }
                 Op::Construct { tag, fields } => {
+                    self.ensure_free(fields as usize * 8);
                     let mut obj = self.heap.alloc_object(tag, fields);
                     for i in (0..fields).rev() {
                         let value = self.stack.pop();
@@ -327,6 +332,7 @@ impl Runtime {
                     let mut concat = Vec::with_capacity(bytes1.len() + bytes2.len());
                     concat.extend(bytes1);
                     concat.extend(bytes2);
+                    self.ensure_free(concat.len());
                     let obj = self.heap.alloc_bytes(concat.len() as u64 | STRING_TAG, concat.len() as u32);
                     obj.bytes[..concat.len()].copy_from_slice(&concat);
                     self.stack.push(Value::Ptr(obj.addr));
@@ -335,6 +341,7 @@ impl Runtime {
                 }
                 Op::StringFromChar => {
                     let x = self.stack.pop_int();
+                    self.ensure_free(1);
                     let obj = self.heap.alloc_bytes(1 | STRING_TAG, 1);
                     obj.bytes[0] = x as u8;
                     self.stack.push(Value::Ptr(obj.addr));
@@ -344,6 +351,7 @@ impl Runtime {
                 Op::IntToString => {
                     let x = self.stack.pop_int();
                     let s = x.to_string();
+                    self.ensure_free(s.len());
                     let obj = self.heap.alloc_bytes(s.len() as u64 | STRING_TAG, s.len() as u32);
                     obj.bytes[..s.len()].copy_from_slice(s.as_bytes());
                     self.stack.push(Value::Ptr(obj.addr));
@@ -360,6 +368,7 @@ impl Runtime {
                     let bytes = bytes.get(start..).unwrap_or(&[]);
                     let bytes = bytes.get(..take_len).unwrap_or(bytes);
                     let bytes = bytes.to_vec();
+                    self.ensure_free(bytes.len());
                     let obj = self.heap.alloc_bytes(bytes.len() as u64 | STRING_TAG, bytes.len() as u32);
                     obj.bytes[..bytes.len()].copy_from_slice(&bytes);
                     self.stack.push(Value::Ptr(obj.addr));
@@ -374,17 +383,28 @@ impl Runtime {
         }
     }
 
+    /// Makes sure that there is enough space to allocate an object that has
+    /// given amount of bytes of contents. Can move objects, so it must be called
+    /// while all values that are still needed are on the stack.
+    fn ensure_free(&mut self, bytes: usize) {
+        let size = Heap::alloc_size(bytes);
+        if self.heap.free_space() < size {
+            self.gc(size);
+        }
+    }
+
     fn maybe_gc(&mut self) {
         if self.heap.allocated() > self.heap.capacity() / 2 {
-            self.gc();
+            self.gc(0);
         }
     }
 
-    fn gc(&mut self) {
-        self.heap.collect(self.stack.ptrs()
+    fn gc(&mut self, ensure_free: usize) {
+        self.heap.collect_and_grow(self.stack.ptrs()
             .chain(self.consts.iter_mut())
             .chain(std::iter::once(&mut self.bools.t))
             .chain(std::iter::once(&mut self.bools.f)),
+            ensure_free,
         );
     }
 }
@@ -462,7 +482,7 @@ fn link(heap: &mut Heap, consts: &mut Vec<Addr>, ops: Vec<compile::Op>) -> (Vec<
                 // TODO: calculate size properly
                 let need_bytes = s.len() + 256;
                 if heap.free_space() < need_bytes {
-                    heap.collect_and_grow(consts.iter_mut(), need_bytes as u32);
+                    heap.collect_and_grow(consts.iter_mut(), need_bytes);
                 }
                 let obj = heap.alloc_bytes(s.len() as u64 | STRING_TAG, s.len() as u32);
                 obj.bytes[..s.len()].copy_from_slice(&s);
diff --git a/ticc-eval/src/heap.rs b/ticc-eval/src/heap.rs
index 49424e1..97a5826 100644
--- a/ticc-eval/src/heap.rs
+++ b/ticc-eval/src/heap.rs
@@ -60,7 +60,7 @@ impl Heap {
         (addr, header, bytes)
     }
 
-    pub(crate) fn collect_and_grow<'a>(&mut self, roots: impl Iterator<Item = &'a mut Addr>, ensure_free: u32) {
+    pub(crate) fn collect_and_grow<'a>(&mut self, roots: impl Iterator<Item = &'a mut Addr>, ensure_free: usize) {
         self.collect_inner(roots, ensure_free);
     }
 
@@ -68,7 +68,7 @@ impl Heap {
         self.collect_inner(roots, 0);
     }
 
-    fn collect_inner<'a>(&mut self, roots: impl Iterator<Item = &'a mut Addr>, ensure_free: u32) {
+    fn collect_inner<'a>(&mut self, roots: impl Iterator<Item = &'a mut Addr>, ensure_free: usize) {
         let roots = roots.collect::<Vec<_>>();
         let mut pending = Vec::new();
         let mut retained = Vec::new();
@@ -100,7 +100,7 @@ impl Heap {
         }
         let min_capacity = (retained_bytes as usize * 4)
             .max(self.bytes.raw.len())
-            .max((ensure_free + retained_bytes) as usize);
+            .max(ensure_free + retained_bytes as usize);
         if min_capacity > self.bytes.raw.len() {
             self.bytes.raw.ensure_size(min_capacity);
             self.move_dst.resize(min_capacity / (Header::SIZE as usize), Addr(0));
@@ -160,6 +160,12 @@ impl Heap {
         self.capacity() - self.allocated()
     }
 
+    /// How much free space is needed to allocate an object with a given
+    /// number of bytes for its contents.
+    pub(crate) fn alloc_size(bytes: usize) -> usize {
+        Header::SIZE as usize + (bytes + 7) / 8 * 8
+    }
+
     pub(crate) fn base(&mut self) -> *mut () {
         self.bytes.raw.as_mut_ptr().cast::<()>()
     }
diff --git a/ticc-eval/src/jit.rs b/ticc-eval/src/jit.rs
index 99ab9ec..66f4545 100644
--- a/ticc-eval/src/jit.rs
+++ b/ticc-eval/src/jit.rs
@@ -291,7 +291,7 @@ fn assemble(ops: &[compile::Op], heap: &mut Heap) -> Result<Assembled, iced_x86:
             compile::Op::PushString(s) => {
                 let need_bytes = s.len() + 256;
                 if heap.free_space() < need_bytes {
-                    heap.collect_and_grow(consts.iter_mut(), need_bytes as u32);
+                    heap.collect_and_grow(consts.iter_mut(), need_bytes);
                 }
 
                 let str = heap.alloc_bytes(s.len() as u64 + STRING_TAG, s.len() as u32);
-- 
2.43.0


From 6c25a1ae37453962ff181d8e4a452d2048a10b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:52 +0000
Subject: [PATCH 02/32] fix: size the forwarding table after the rounded up
 heap size

The heap rounds its size up to whole words, but the forwarding table was sized
from the requested size, so the object at the very top of the heap could have
no slot in it and the next collection panicked.
---
 ticc-eval/src/heap.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticc-eval/src/heap.rs b/ticc-eval/src/heap.rs
index 97a5826..c7c1a03 100644
--- a/ticc-eval/src/heap.rs
+++ b/ticc-eval/src/heap.rs
@@ -103,7 +103,7 @@ impl Heap {
             .max(ensure_free + retained_bytes as usize);
         if min_capacity > self.bytes.raw.len() {
             self.bytes.raw.ensure_size(min_capacity);
-            self.move_dst.resize(min_capacity / (Header::SIZE as usize), Addr(0));
+            self.move_dst.resize(self.bytes.raw.len() / (Header::SIZE as usize), Addr(0));
         }
         let mut new_bump = self.bytes.raw.len();
         for addr in retained.into_iter().rev() {
-- 
2.43.0


From 51b3fc580a7220b16bbe1a391d2d4d6e4907ee8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 03/32] fix: keep track of pointers in heap objects with more
 than 64 fields

The pointer map of a heap object was a single 64 bit word, so a closure with
more captures overflowed the shift (a panic, or a corrupted heap when built
without overflow checks).
---
 ticc-eval/src/bytecode.rs | 19 ++++++-----
 ticc-eval/src/heap.rs     | 66 ++++++++++++++++++++++++++++++++-------
 2 files changed, 64 insertions(+), 21 deletions(-)

diff --git a/ticc-eval/src/bytecode.rs b/ticc-eval/src/bytecode.rs
index 42ac5a3..a1bb3d8 100644
--- a/ticc-eval/src/bytecode.rs
+++ b/ticc-eval/src/bytecode.rs
@@ -264,7 +264,7 @@ impl Runtime {
                     }
                 }
                 Op::Construct { tag, fields } => {
-                    self.ensure_free(fields as usize * 8);
+                    self.ensure_free(Heap::object_size(fields));
                     let mut obj = self.heap.alloc_object(tag, fields);
                     for i in (0..fields).rev() {
                         let value = self.stack.pop();
@@ -332,7 +332,7 @@ impl Runtime {
                     let mut concat = Vec::with_capacity(bytes1.len() + bytes2.len());
                     concat.extend(bytes1);
                     concat.extend(bytes2);
-                    self.ensure_free(concat.len());
+                    self.ensure_free(Heap::alloc_size(concat.len()));
                     let obj = self.heap.alloc_bytes(concat.len() as u64 | STRING_TAG, concat.len() as u32);
                     obj.bytes[..concat.len()].copy_from_slice(&concat);
                     self.stack.push(Value::Ptr(obj.addr));
@@ -341,7 +341,7 @@ impl Runtime {
                 }
                 Op::StringFromChar => {
                     let x = self.stack.pop_int();
-                    self.ensure_free(1);
+                    self.ensure_free(Heap::alloc_size(1));
                     let obj = self.heap.alloc_bytes(1 | STRING_TAG, 1);
                     obj.bytes[0] = x as u8;
                     self.stack.push(Value::Ptr(obj.addr));
@@ -351,7 +351,7 @@ impl Runtime {
                 Op::IntToString => {
                     let x = self.stack.pop_int();
                     let s = x.to_string();
-                    self.ensure_free(s.len());
+                    self.ensure_free(Heap::alloc_size(s.len()));
                     let obj = self.heap.alloc_bytes(s.len() as u64 | STRING_TAG, s.len() as u32);
                     obj.bytes[..s.len()].copy_from_slice(s.as_bytes());
                     self.stack.push(Value::Ptr(obj.addr));
@@ -368,7 +368,7 @@ impl Runtime {
                     let bytes = bytes.get(start..).unwrap_or(&[]);
                     let bytes = bytes.get(..take_len).unwrap_or(bytes);
                     let bytes = bytes.to_vec();
-                    self.ensure_free(bytes.len());
+                    self.ensure_free(Heap::alloc_size(bytes.len()));
                     let obj = self.heap.alloc_bytes(bytes.len() as u64 | STRING_TAG, bytes.len() as u32);
                     obj.bytes[..bytes.len()].copy_from_slice(&bytes);
                     self.stack.push(Value::Ptr(obj.addr));
@@ -383,11 +383,10 @@ impl Runtime {
         }
     }
 
-    /// Makes sure that there is enough space to allocate an object that has
-    /// given amount of bytes of contents. Can move objects, so it must be called
-    /// while all values that are still needed are on the stack.
-    fn ensure_free(&mut self, bytes: usize) {
-        let size = Heap::alloc_size(bytes);
+    /// Makes sure that there is enough space to allocate an object of given
+    /// size. Can move objects, so it must be called while all values that are
+    /// still needed are on the stack.
+    fn ensure_free(&mut self, size: usize) {
         if self.heap.free_space() < size {
             self.gc(size);
         }
diff --git a/ticc-eval/src/heap.rs b/ticc-eval/src/heap.rs
index c7c1a03..54808d4 100644
--- a/ticc-eval/src/heap.rs
+++ b/ticc-eval/src/heap.rs
@@ -34,11 +34,16 @@ impl Heap {
     }
 
     pub(crate) fn alloc_object(&mut self, tag: u64, fields: u32) -> ObjAlloc<'_> {
-        let (addr, header, bytes) = self.raw_alloc(tag, fields * 8);
+        let extra_ptrs = Header::extra_ptr_words(fields);
+        let (addr, header, bytes) = self.raw_alloc(tag, (fields + extra_ptrs) * 8);
+        header.extra_ptrs = extra_ptrs as u16;
+        let (fields, extra_ptrs) = bytes_to_words_mut(bytes).split_at_mut(fields as usize);
+        extra_ptrs.fill(0);
         ObjAlloc {
             addr,
             header,
-            fields: bytes_to_words_mut(bytes),
+            fields,
+            extra_ptrs,
         }
     }
 
@@ -53,6 +58,7 @@ impl Heap {
         *self.bytes.obj_header(addr) = Header {
             size: total_size as u32,
             mark: 0,
+            extra_ptrs: 0,
             ptrs: 0,
             tag,
         };
@@ -87,12 +93,13 @@ impl Heap {
             retained.push(current);
             retained_bytes += header.size;
             current.0 += u64::from(header.size);
-            if header.ptrs != 0 {
+            if header.ptrs != 0 || header.extra_ptrs != 0 {
                 let ptrs = header.ptrs;
-                let fields = bytes_to_words(bytes);
+                let (fields, extra_ptrs) = header.split_extra_ptrs(bytes_to_words(bytes));
+                let extra_ptrs = extra_ptrs.to_vec();
                 pending.extend(fields.iter().copied());
                 for (i, field) in pending.drain(..).enumerate() {
-                    if ptrs & (1 << i) != 0 {
+                    if is_ptr(ptrs, &extra_ptrs, i) {
                         self.bytes.obj_header(Addr(field)).mark = 1;
                     }
                 }
@@ -114,9 +121,10 @@ impl Heap {
             self.bytes.raw.copy_within((addr.0 as usize)..((addr.0 + u64::from(size)) as usize), place_at);
             self.move_dst[(addr.0 / u64::from(Header::SIZE)) as usize] = new_addr;
             let (header, fields) = self.bytes.obj_fields_mut(new_addr);
-            if header.ptrs != 0 {
+            if header.ptrs != 0 || header.extra_ptrs != 0 {
+                let (fields, extra_ptrs) = header.split_extra_ptrs_mut(fields);
                 for (i, ptr) in fields.into_iter().enumerate() {
-                    if header.ptrs & (1 << i) != 0 {
+                    if is_ptr(header.ptrs, extra_ptrs, i) {
                         *ptr = self.move_dst[(*ptr / u64::from(Header::SIZE)) as usize].0;
                     }
                 }
@@ -129,13 +137,14 @@ impl Heap {
     }
 
     pub(crate) fn obj_with_fields(&self, addr: Addr) -> (u64, impl Iterator<Item = Value> + '_) {
-        let (header, fields) = self.bytes.obj_fields(addr);
+        let (header, words) = self.bytes.obj_fields(addr);
+        let (fields, extra_ptrs) = header.split_extra_ptrs(words);
         let ptrs = header.ptrs;
         let fields = fields
             .iter()
             .copied()
             .enumerate()
-            .map(move |(i, v)| if ptrs & (1 << i) != 0 {
+            .map(move |(i, v)| if is_ptr(ptrs, extra_ptrs, i) {
                 Value::Ptr(Addr(v))
             } else {
                 Value::Int(v)
@@ -166,6 +175,12 @@ impl Heap {
         Header::SIZE as usize + (bytes + 7) / 8 * 8
     }
 
+    /// How much free space is needed to allocate an object with a given
+    /// number of fields.
+    pub(crate) fn object_size(fields: u32) -> usize {
+        Self::alloc_size((fields + Header::extra_ptr_words(fields)) as usize * 8)
+    }
+
     pub(crate) fn base(&mut self) -> *mut () {
         self.bytes.raw.as_mut_ptr().cast::<()>()
     }
@@ -221,6 +236,15 @@ fn bytes_to_words_mut(bytes: &mut [u8]) -> &mut [u64] {
     }
 }
 
+fn is_ptr(ptrs: u64, extra_ptrs: &[u64], field: usize) -> bool {
+    let word = if field < 64 {
+        ptrs
+    } else {
+        extra_ptrs[field / 64 - 1]
+    };
+    word & (1 << (field % 64)) != 0
+}
+
 fn round_up(bytes: u32) -> u32 {
     (bytes + 7) / 8 * 8
 }
@@ -229,12 +253,17 @@ pub(crate) struct ObjAlloc<'a> {
     pub(crate) addr: Addr,
     header: &'a mut Header,
     fields: &'a mut [u64],
+    extra_ptrs: &'a mut [u64],
 }
 
 impl ObjAlloc<'_> {
     pub(crate) fn put_ptr(&mut self, idx: usize, addr: Addr) {
         self.fields[idx] = addr.0;
-        self.header.ptrs |= 1 << idx;
+        if idx < 64 {
+            self.header.ptrs |= 1 << idx;
+        } else {
+            self.extra_ptrs[idx / 64 - 1] |= 1 << (idx % 64);
+        }
     }
 
     pub(crate) fn put_int(&mut self, idx: usize, value: u64) {
@@ -250,7 +279,10 @@ pub(crate) struct BytesAlloc<'a> {
 #[repr(C)]
 struct Header {
     size: u32,
-    mark: u32,
+    mark: u16,
+    // count of trailing words that tell which of the fields past the first 64
+    // are pointers
+    extra_ptrs: u16,
     ptrs: u64,
     tag: u64,
 }
@@ -260,6 +292,18 @@ impl Header {
 
     const _ASSERT_ALIGNED: () = assert!(Self::SIZE % 8 == 0);
 
+    fn extra_ptr_words(fields: u32) -> u32 {
+        fields.saturating_sub(1) / 64
+    }
+
+    fn split_extra_ptrs<'a>(&self, words: &'a [u64]) -> (&'a [u64], &'a [u64]) {
+        words.split_at(words.len() - usize::from(self.extra_ptrs))
+    }
+
+    fn split_extra_ptrs_mut<'a>(&self, words: &'a mut [u64]) -> (&'a mut [u64], &'a mut [u64]) {
+        words.split_at_mut(words.len() - usize::from(self.extra_ptrs))
+    }
+
     // does not have to be true, just a note to know what the size is
     const _ASSERT_SIZE: () = assert!(Self::SIZE == 24);
 }
-- 
2.43.0


From 66b908738fa30b30ff56e95215f8f43e4341b46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 04/32] fix: allow constructors with more than 9 fields

Building such a value (or returning one from the bytecode engine) panicked with
"unsupported tagged value size".
---
 ticc-eval/src/tagged.rs | 34 +++++++++++++---------------------
 1 file changed, 13 insertions(+), 21 deletions(-)

diff --git a/ticc-eval/src/tagged.rs b/ticc-eval/src/tagged.rs
index aea4cc3..f6a77cd 100644
--- a/ticc-eval/src/tagged.rs
+++ b/ticc-eval/src/tagged.rs
@@ -1,42 +1,34 @@
-use std::{convert::TryInto, rc::Rc};
+use std::rc::Rc;
 use ticc_core::ir;
 use crate::Value;
 
 #[derive(Clone)]
 pub struct Tagged<F> {
-    alloc: Rc<TaggedAlloc<[Value<F>]>>,
+    alloc: Rc<TaggedAlloc<F>>,
 }
 
-struct TaggedAlloc<T: ?Sized> {
+struct TaggedAlloc<F> {
     tag: ir::Name,
-    values: T,
+    values: Box<[Value<F>]>,
 }
 
 impl<F> Tagged<F> {
     pub(crate) fn from_array<const N: usize>(tag: ir::Name, arr: [Value<F>; N]) -> Tagged<F> {
+        Tagged::from_boxed_slice(tag, Box::new(arr))
+    }
+
+    pub(crate) fn from_vec(tag: ir::Name, values: Vec<Value<F>>) -> Tagged<F> {
+        Tagged::from_boxed_slice(tag, values.into_boxed_slice())
+    }
+
+    fn from_boxed_slice(tag: ir::Name, values: Box<[Value<F>]>) -> Tagged<F> {
         let alloc = Rc::new(TaggedAlloc {
             tag,
-            values: arr,
+            values,
         });
         Tagged { alloc }
     }
 
-    pub(crate) fn from_vec(tag: ir::Name, values: Vec<Value<F>>) -> Tagged<F> {
-        match values.len() {
-            0 => Tagged::from_array::<0>(tag, []),
-            1 => Tagged::from_array::<1>(tag, values.try_into().unwrap()),
-            2 => Tagged::from_array::<2>(tag, values.try_into().unwrap()),
-            3 => Tagged::from_array::<3>(tag, values.try_into().unwrap()),
-            4 => Tagged::from_array::<4>(tag, values.try_into().unwrap()),
-            5 => Tagged::from_array::<5>(tag, values.try_into().unwrap()),
-            6 => Tagged::from_array::<6>(tag, values.try_into().unwrap()),
-            7 => Tagged::from_array::<7>(tag, values.try_into().unwrap()),
-            8 => Tagged::from_array::<8>(tag, values.try_into().unwrap()),
-            9 => Tagged::from_array::<9>(tag, values.try_into().unwrap()),
-            other => panic!("unsupported tagged value size: {}", other),
-        }
-    }
-
     pub fn tag(&self) -> ir::Name {
         self.alloc.tag
     }
-- 
2.43.0


From 126ae5ccb63fe239e4da98f9bd239b065c13bb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:50 +0000
Subject: [PATCH 05/32] fix: let later items see inferred types of earlier ones

Definitions without a type annotation stayed untyped for the items compiled in
the same go, but not for the ones compiled after a query stopped in between:
diagnostics depended on what was asked before, and type errors in uses of such
definitions were missed (code generation then failed verification).
---
 ticc/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ticc/src/lib.rs b/ticc/src/lib.rs
index 2610018..a31749b 100644
--- a/ticc/src/lib.rs
+++ b/ticc/src/lib.rs
@@ -126,6 +126,8 @@ impl CompilationUnit {
             compiler::numck::check_numbers(&mut item);
             compiler::kindck::kind_check(&mut item, &defs);
             compiler::typeck::type_check(&mut item, &defs);
+            // types of definitions without annotations are known only now
+            defs.add_item(&item);
             compiler::matchck::check_matches(&mut item, &defs);
             self.items.push(item);
             scope.add_item(&self.src, self.items.last().unwrap(), false);
-- 
2.43.0


From f6f3800c245bcd88f3b2da803a829f153853f5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:47 +0000
Subject: [PATCH 06/32] fix: do not crash the language server on documents that
 are not open

Requests about a document that is not open (any more) and change notifications
without content changes panicked. Requests now get an empty answer, changes of
documents that are not open are ignored, and of several full content changes
the last one is used, not the first.
---
 ticc-lsp/src/handlers.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/ticc-lsp/src/handlers.rs b/ticc-lsp/src/handlers.rs
index 9a70bfd..b2b286b 100644
--- a/ticc-lsp/src/handlers.rs
+++ b/ticc-lsp/src/handlers.rs
@@ -10,7 +10,7 @@ fn semantic_tokens(
     params: lsp_types::SemanticTokensParams,
 ) -> Option<lsp_types::SemanticTokensResult> {
     let key = FileKey::from(params.text_document.uri);
-    let compilation = server.compilations.get_mut(&key).unwrap();
+    let compilation = server.compilations.get_mut(&key)?;
     let tokens = crate::semantic_tokens::get_semantic_tokens(&mut compilation.unit);
     Some(lsp_types::SemanticTokensResult::Tokens(lsp_types::SemanticTokens {
         result_id: None,
@@ -23,7 +23,7 @@ fn go_to_definition(
     params: lsp_types::GotoDefinitionParams,
 ) -> Option<lsp_types::GotoDefinitionResponse> {
     let key = FileKey::from(params.text_document_position_params.text_document.uri);
-    let compilation = server.compilations.get_mut(&key).unwrap();
+    let compilation = server.compilations.get_mut(&key)?;
     let pos = params.text_document_position_params.position;
     if let Some(range) = crate::go_to_definition::find_definition(&mut compilation.unit, pos) {
         Some(lsp_types::GotoDefinitionResponse::Scalar(lsp_types::Location {
@@ -40,7 +40,7 @@ fn find_references(
     params: lsp_types::ReferenceParams,
 ) -> Option<Vec<lsp_types::Location>> {
     let key = FileKey::from(params.text_document_position.text_document.uri);
-    let compilation = server.compilations.get_mut(&key).unwrap();
+    let compilation = server.compilations.get_mut(&key)?;
     let pos = params.text_document_position.position;
     let references = crate::find_references::find_references(&mut compilation.unit, pos)?;
     let mut references = references
@@ -66,7 +66,7 @@ fn hover(
     params: lsp_types::HoverParams,
 ) -> Option<lsp_types::Hover> {
     let key = FileKey::from(params.text_document_position_params.text_document.uri);
-    let compilation = server.compilations.get_mut(&key).unwrap();
+    let compilation = server.compilations.get_mut(&key)?;
     let pos = params.text_document_position_params.position;
     crate::hover::hover(&mut compilation.unit, pos)
 }
@@ -76,7 +76,7 @@ fn completions(
     params: lsp_types::CompletionParams,
 ) -> Option<lsp_types::CompletionResponse> {
     let key = FileKey::from(params.text_document_position.text_document.uri);
-    let compilation = server.compilations.get_mut(&key).unwrap();
+    let compilation = server.compilations.get_mut(&key)?;
     let pos = params.text_document_position.position;
     crate::completions::completions(&mut compilation.unit, pos)
 }
@@ -95,8 +95,15 @@ fn on_change(
     params: lsp_types::DidChangeTextDocumentParams,
 ) {
     let key = FileKey::from(params.text_document.uri);
-    server.files.set(key.clone(), &params.content_changes[0].text);
-    on_file_update(server, key);
+    if server.compilations.get_mut(&key).is_none() {
+        eprintln!("ignoring change of a document that is not open: {}", key.0);
+        return;
+    }
+    // documents are synced in full, so each change replaces the previous ones
+    if let Some(change) = params.content_changes.last() {
+        server.files.set(key.clone(), &change.text);
+        on_file_update(server, key);
+    }
 }
 
 fn on_close(
-- 
2.43.0


From 8ec2589cd06f3ce391e98c425cc3ee39481b2919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 07/32] fix: answer unknown and malformed language server
 requests with an error

Unknown requests never got a response, and a request or notification with
malformed params killed the server.
---
 ticc-lsp/src/main.rs | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/ticc-lsp/src/main.rs b/ticc-lsp/src/main.rs
index ff5136f..221a667 100644
--- a/ticc-lsp/src/main.rs
+++ b/ticc-lsp/src/main.rs
@@ -89,8 +89,12 @@ impl RequestHandler {
     {
         RequestHandler {
             handler: Box::new(move |server, request| {
-                match request.extract::<R::Params>(R::METHOD) {
-                    Ok((id, params)) => {
+                if request.method != R::METHOD {
+                    return Err(request);
+                }
+                let id = request.id;
+                match serde_json::from_value::<R::Params>(request.params) {
+                    Ok(params) => {
                         let result = handler(server, params);
                         let response = lsp_server::Response {
                             id,
@@ -99,7 +103,13 @@ impl RequestHandler {
                         };
                         Ok(response)
                     }
-                    Err(req) => Err(req),
+                    Err(e) => {
+                        Ok(lsp_server::Response::new_err(
+                            id,
+                            lsp_server::ErrorCode::InvalidParams as i32,
+                            format!("invalid params: {}", e),
+                        ))
+                    }
                 }
             }),
         }
@@ -118,12 +128,18 @@ impl NotificationHandler {
     {
         NotificationHandler {
             handler: Box::new(move |server, notification| {
-                match notification.extract::<N::Params>(N::METHOD) {
+                if notification.method != N::METHOD {
+                    return Err(notification);
+                }
+                match serde_json::from_value::<N::Params>(notification.params) {
                     Ok(params) => {
                         handler(server, params);
                         Ok(())
                     }
-                    Err(n) => Err(n),
+                    Err(e) => {
+                        eprintln!("ignoring malformed notification {:?}: {}", N::METHOD, e);
+                        Ok(())
+                    }
                 }
             }),
         }
@@ -167,6 +183,12 @@ impl Handlers {
             }
         }
         eprintln!("unhandled request: {:?}", request.method);
+        let response = lsp_server::Response::new_err(
+            request.id,
+            lsp_server::ErrorCode::MethodNotFound as i32,
+            format!("unknown method: {}", request.method),
+        );
+        server.sender.send(Message::Response(response)).unwrap();
         Ok(())
     }
 
@@ -247,7 +269,7 @@ fn main_loop(
     params: serde_json::Value,
     read_file: ReadFile,
 ) -> Result<()> {
-    let _params: InitializeParams = serde_json::from_value(params).unwrap();
+    let _params: InitializeParams = serde_json::from_value(params)?;
     let files = FileSet {
         files: Default::default(),
         read_file,
-- 
2.43.0


From 6527accbba560fabf6c8a74444d86bb7006be522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 08/32] fix: report every import of an unreadable file as
 unreadable

The second import of a file that does not exist or cannot be read was reported
as an import cycle.
---
 ticc-lsp/src/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ticc-lsp/src/main.rs b/ticc-lsp/src/main.rs
index 221a667..06bcfaf 100644
--- a/ticc-lsp/src/main.rs
+++ b/ticc-lsp/src/main.rs
@@ -431,6 +431,8 @@ impl ModuleResolver for CompilationModuleResolver {
 
         match self.dependencies.lock().unwrap().entry(key.clone()) {
             Entry::Occupied(e) => match e.get().unit.clone() {
+                // the file could not be read, each import of it fails the same way
+                None if source.content.is_err() => {}
                 None => {
                     return Err(ticc::ImportError::ImportCycle);
                 }
-- 
2.43.0


From b4b92e880712a4e2cb95060261f2708eb631aa0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 09/32] fix: drop editor text of closed documents

After a document was closed, documents importing it kept seeing its last text in
the editor, saved or not.
---
 ticc-lsp/src/handlers.rs | 7 ++++++-
 ticc-lsp/src/main.rs     | 7 +++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/ticc-lsp/src/handlers.rs b/ticc-lsp/src/handlers.rs
index b2b286b..e016128 100644
--- a/ticc-lsp/src/handlers.rs
+++ b/ticc-lsp/src/handlers.rs
@@ -111,7 +111,12 @@ fn on_close(
     params: lsp_types::DidCloseTextDocumentParams,
 ) {
     let key = FileKey::from(params.text_document.uri);
-    server.compilations.remove_file(&key);
+    if server.compilations.get_mut(&key).is_some() {
+        server.compilations.remove_file(&key);
+        // unsaved edits are gone, other documents see what is on disk again
+        server.files.reload(&key);
+        on_file_update(server, key.clone());
+    }
     clear_diagnostics(server, key);
 }
 
diff --git a/ticc-lsp/src/main.rs b/ticc-lsp/src/main.rs
index 06bcfaf..a0099e6 100644
--- a/ticc-lsp/src/main.rs
+++ b/ticc-lsp/src/main.rs
@@ -335,6 +335,13 @@ impl FileSet {
             });
     }
 
+    fn reload(&self, key: &FileKey) {
+        if let Some(file) = self.files.lock().unwrap().get_mut(key) {
+            file.content = self.read_file(key).map(Into::into).map_err(|e| e.kind());
+            file.version += 1;
+        }
+    }
+
     fn get(&self, key: &FileKey) -> FileContent {
         let x = self.files
             .lock()
-- 
2.43.0


From 8325c66222efdcc1a00e2a464e952ec2a281feb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 10/32] fix: clamp positions past the end of a line to that
 line

The start of the next line was not known yet when a position was translated, so
a column past the end of a line ended up on one of the following lines.
---
 ticc-lsp/src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticc-lsp/src/utils.rs b/ticc-lsp/src/utils.rs
index 87d146d..e1d2671 100644
--- a/ticc-lsp/src/utils.rs
+++ b/ticc-lsp/src/utils.rs
@@ -101,7 +101,7 @@ impl ToTicc for Position {
     type TiccRepr = Pos;
 
     fn to_ticc(self, translator: &mut LocationTranslator<'_>) -> Self::TiccRepr {
-        while !translator.complete && translator.line_starts.len() <= self.line as usize {
+        while !translator.complete && translator.line_starts.len() <= self.line as usize + 1 {
             translator.find_next_line_position();
         }
         let current = translator.line_starts.get(self.line as usize).copied();
-- 
2.43.0


From e81394d267e28c9fa4c9758d15f2e49bd8ebd15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 11/32] Simulation hooks for the managed heap, behind
 cfg(tic_sim)

---
 ticc-eval/src/bytecode.rs |  10 +++
 ticc-eval/src/heap.rs     |  21 ++++-
 ticc-eval/src/lib.rs      |   4 +
 ticc-eval/src/sim.rs      | 156 ++++++++++++++++++++++++++++++++++++++
 4 files changed, 190 insertions(+), 1 deletion(-)
 create mode 100644 ticc-eval/src/sim.rs

diff --git a/ticc-eval/src/bytecode.rs b/ticc-eval/src/bytecode.rs
index a1bb3d8..9b39fc7 100644
--- a/ticc-eval/src/bytecode.rs
+++ b/ticc-eval/src/bytecode.rs
@@ -387,12 +387,22 @@ impl Runtime {
     /// size. Can move objects, so it must be called while all values that are
     /// still needed are on the stack.
     fn ensure_free(&mut self, size: usize) {
+        #[cfg(tic_sim)]
+        if let crate::sim::GcChoice::Collect { free } = crate::sim::before_alloc(size, self.heap.free_space()) {
+            self.gc(free.max(size));
+        }
         if self.heap.free_space() < size {
             self.gc(size);
         }
     }
 
     fn maybe_gc(&mut self) {
+        #[cfg(tic_sim)]
+        match crate::sim::after_alloc(self.heap.allocated(), self.heap.capacity()) {
+            crate::sim::GcChoice::Default => {}
+            crate::sim::GcChoice::Skip => return,
+            crate::sim::GcChoice::Collect { free } => return self.gc(free),
+        }
         if self.heap.allocated() > self.heap.capacity() / 2 {
             self.gc(0);
         }
diff --git a/ticc-eval/src/heap.rs b/ticc-eval/src/heap.rs
index 54808d4..07c04e3 100644
--- a/ticc-eval/src/heap.rs
+++ b/ticc-eval/src/heap.rs
@@ -16,7 +16,10 @@ pub(crate) struct Heap {
 impl Heap {
     pub(crate) fn new() -> Heap {
         let mut bytes = AlignedBytes::default();
-        bytes.ensure_size(256);
+        let initial_size = 256;
+        #[cfg(tic_sim)]
+        let initial_size = crate::sim::initial_heap_size(initial_size);
+        bytes.ensure_size(initial_size);
         let bump = bytes.len();
         Heap {
             move_dst: std::iter::repeat(Addr(u64::MAX)).take(bytes.len() / Header::SIZE as usize).collect(),
@@ -75,6 +78,8 @@ impl Heap {
     }
 
     fn collect_inner<'a>(&mut self, roots: impl Iterator<Item = &'a mut Addr>, ensure_free: usize) {
+        #[cfg(tic_sim)]
+        let before = (self.allocated(), self.capacity());
         let roots = roots.collect::<Vec<_>>();
         let mut pending = Vec::new();
         let mut retained = Vec::new();
@@ -134,6 +139,20 @@ impl Heap {
             *ptr = self.move_dst[(ptr.0 / u64::from(Header::SIZE)) as usize];
         }
         self.bump = new_bump;
+        #[cfg(tic_sim)]
+        {
+            if crate::sim::poison() {
+                let vacated = self.bump;
+                self.bytes.raw[..vacated].fill(0xa5);
+            }
+            crate::sim::collected(crate::sim::CollectStats {
+                allocated_before: before.0,
+                allocated_after: self.allocated(),
+                capacity_before: before.1,
+                capacity_after: self.capacity(),
+                requested_free: ensure_free,
+            });
+        }
     }
 
     pub(crate) fn obj_with_fields(&self, addr: Addr) -> (u64, impl Iterator<Item = Value> + '_) {
diff --git a/ticc-eval/src/lib.rs b/ticc-eval/src/lib.rs
index 503aefd..58baf69 100644
--- a/ticc-eval/src/lib.rs
+++ b/ticc-eval/src/lib.rs
@@ -1,9 +1,13 @@
+#![allow(unexpected_cfgs)]
+
 pub mod bytecode;
 mod compile;
 mod heap;
 pub mod jit;
 pub mod lambda;
 mod tagged;
+#[cfg(tic_sim)]
+pub mod sim;
 pub mod treewalk;
 
 use std::fmt;
diff --git a/ticc-eval/src/sim.rs b/ticc-eval/src/sim.rs
new file mode 100644
index 0000000..8d98065
--- /dev/null
+++ b/ticc-eval/src/sim.rs
@@ -0,0 +1,156 @@
+//! Decision points for deterministic simulation of the managed heap.
+//!
+//! Only compiled with `--cfg tic_sim`. A simulation installs a [`HeapPlan`] for
+//! the current thread, and the heap and bytecode engine ask it when to collect,
+//! how big to start and how much to grow. Without a plan everything behaves as
+//! if this module did not exist.
+
+use std::cell::RefCell;
+use crate::heap::{Addr, Heap, Value};
+
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+pub enum GcChoice {
+    /// Whatever the engine would do without the simulation.
+    Default,
+    /// Do not collect now (unless there is no space left for an allocation).
+    Skip,
+    /// Collect now, and make sure there is this much free space afterwards.
+    Collect { free: usize },
+}
+
+#[derive(Debug, Clone, Copy)]
+pub struct CollectStats {
+    pub allocated_before: usize,
+    pub allocated_after: usize,
+    pub capacity_before: usize,
+    pub capacity_after: usize,
+    pub requested_free: usize,
+}
+
+pub trait HeapPlan {
+    fn initial_heap_size(&mut self, default: usize) -> usize;
+    /// Asked before each allocation, with the space it needs.
+    fn before_alloc(&mut self, size: usize, free: usize) -> GcChoice;
+    /// Asked after each allocation.
+    fn after_alloc(&mut self, allocated: usize, capacity: usize) -> GcChoice;
+    /// Whether to overwrite the space vacated by a collection.
+    fn poison(&mut self) -> bool;
+    fn collected(&mut self, stats: CollectStats);
+}
+
+thread_local! {
+    static PLAN: RefCell<Option<Box<dyn HeapPlan>>> = RefCell::new(None);
+}
+
+pub fn install(plan: Option<Box<dyn HeapPlan>>) -> Option<Box<dyn HeapPlan>> {
+    PLAN.with(|p| std::mem::replace(&mut *p.borrow_mut(), plan))
+}
+
+fn with_plan<T>(default: T, f: impl FnOnce(&mut dyn HeapPlan) -> T) -> T {
+    PLAN.with(|p| match &mut *p.borrow_mut() {
+        Some(plan) => f(&mut **plan),
+        None => default,
+    })
+}
+
+pub(crate) fn initial_heap_size(default: usize) -> usize {
+    with_plan(default, |p| p.initial_heap_size(default))
+}
+
+pub(crate) fn before_alloc(size: usize, free: usize) -> GcChoice {
+    with_plan(GcChoice::Default, |p| p.before_alloc(size, free))
+}
+
+pub(crate) fn after_alloc(allocated: usize, capacity: usize) -> GcChoice {
+    with_plan(GcChoice::Default, |p| p.after_alloc(allocated, capacity))
+}
+
+pub(crate) fn poison() -> bool {
+    with_plan(false, |p| p.poison())
+}
+
+pub(crate) fn collected(stats: CollectStats) {
+    with_plan((), |p| p.collected(stats))
+}
+
+/// A heap of its own for simulations that drive allocations and collections
+/// directly.
+pub struct SimHeap {
+    heap: Heap,
+}
+
+#[derive(Debug, PartialEq, Eq, Hash, Clone, Copy)]
+pub struct SimAddr(Addr);
+
+#[derive(Debug, PartialEq, Eq, Hash, Clone, Copy)]
+pub enum SimValue {
+    Int(u64),
+    Ptr(SimAddr),
+}
+
+impl SimHeap {
+    pub fn new() -> SimHeap {
+        SimHeap { heap: Heap::new() }
+    }
+
+    pub fn object_size(fields: u32) -> usize {
+        Heap::object_size(fields)
+    }
+
+    pub fn bytes_size(bytes: usize) -> usize {
+        Heap::alloc_size(bytes)
+    }
+
+    pub fn alloc_object(&mut self, tag: u64, fields: &[SimValue]) -> SimAddr {
+        let mut obj = self.heap.alloc_object(tag, fields.len() as u32);
+        for (i, f) in fields.iter().enumerate() {
+            match *f {
+                SimValue::Int(x) => obj.put_int(i, x),
+                SimValue::Ptr(SimAddr(x)) => obj.put_ptr(i, x),
+            }
+        }
+        SimAddr(obj.addr)
+    }
+
+    pub fn alloc_bytes(&mut self, tag: u64, bytes: &[u8]) -> SimAddr {
+        let obj = self.heap.alloc_bytes(tag, bytes.len() as u32);
+        obj.bytes[..bytes.len()].copy_from_slice(bytes);
+        SimAddr(obj.addr)
+    }
+
+    pub fn fields(&self, addr: SimAddr) -> (u64, Vec<SimValue>) {
+        let (tag, fields) = self.heap.obj_with_fields(addr.0);
+        let fields = fields
+            .map(|f| match f {
+                Value::Int(x) => SimValue::Int(x),
+                Value::Ptr(x) => SimValue::Ptr(SimAddr(x)),
+            })
+            .collect();
+        (tag, fields)
+    }
+
+    pub fn bytes(&self, addr: SimAddr) -> (u64, Vec<u8>) {
+        let (tag, bytes) = self.heap.obj_with_bytes(addr.0);
+        (tag, bytes.to_vec())
+    }
+
+    pub fn collect(&mut self, roots: &mut [SimAddr]) {
+        self.heap.collect(roots.iter_mut().map(|r| &mut r.0));
+    }
+
+    pub fn collect_and_grow(&mut self, roots: &mut [SimAddr], ensure_free: usize) {
+        self.heap.collect_and_grow(roots.iter_mut().map(|r| &mut r.0), ensure_free);
+    }
+
+    pub fn allocated(&self) -> usize {
+        self.heap.allocated()
+    }
+
+    pub fn capacity(&self) -> usize {
+        self.heap.capacity()
+    }
+
+    pub fn free_space(&self) -> usize {
+        self.heap.free_space()
+    }
+}
-- 
2.43.0


From 3068f0d1f7ac6a6533c192afe759acd940692cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 12/32] Simulation hooks for threads, pass order and the
 language server, behind cfg(tic_sim)

---
 ticc-lsp/src/main.rs    |  11 +++
 ticc/src/builtin.rs     |   4 +-
 ticc/src/codegen/opt.rs |   3 +
 ticc/src/compiler/ir.rs |   2 +-
 ticc/src/lib.rs         |   9 ++-
 ticc/src/sim.rs         | 147 ++++++++++++++++++++++++++++++++++++++++
 ticc/src/sync.rs        |   9 +++
 7 files changed, 180 insertions(+), 5 deletions(-)
 create mode 100644 ticc/src/sim.rs
 create mode 100644 ticc/src/sync.rs

diff --git a/ticc-lsp/src/main.rs b/ticc-lsp/src/main.rs
index a0099e6..a038ed7 100644
--- a/ticc-lsp/src/main.rs
+++ b/ticc-lsp/src/main.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)]
+
 mod completions;
 mod diagnostics;
 mod find_references;
@@ -217,6 +219,15 @@ fn main() -> Result<()> {
     Ok(())
 }
 
+/// Runs the server over a simulated connection and file system.
+#[cfg(tic_sim)]
+pub fn sim_run(
+    conn: Connection,
+    read_file: Arc<dyn Fn(&Path) -> Result<String, std::io::Error> + Send + Sync>,
+) {
+    run(conn, read_file);
+}
+
 fn run(conn: Connection, read_file: ReadFile) {
     let server_capabilities = serde_json::to_value(&server_capabilities()).unwrap();
     let initialization_params = match conn.initialize(server_capabilities) {
diff --git a/ticc/src/builtin.rs b/ticc/src/builtin.rs
index 845e3fc..596ec10 100644
--- a/ticc/src/builtin.rs
+++ b/ticc/src/builtin.rs
@@ -1,6 +1,4 @@
-use std::sync::Mutex;
-
-use crate::{CompleteUnit, CompilationUnit, NoopModuleResolver, compiler::ir::{self, Visibility}};
+use crate::{sync::Mutex, CompleteUnit, CompilationUnit, NoopModuleResolver, compiler::ir::{self, Visibility}};
 
 struct LazyModule {
     source: &'static str,
diff --git a/ticc/src/codegen/opt.rs b/ticc/src/codegen/opt.rs
index a989069..cba5740 100644
--- a/ticc/src/codegen/opt.rs
+++ b/ticc/src/codegen/opt.rs
@@ -54,6 +54,9 @@ fn optimize_iteration(
         merge_match::optimize,
     ];
 
+    #[cfg(tic_sim)]
+    let optimizations = &crate::sim::arrange_passes(optimizations);
+
     verify(program);
     for &opt in optimizations {
         opt(program);
diff --git a/ticc/src/compiler/ir.rs b/ticc/src/compiler/ir.rs
index 4492d6c..99b2148 100644
--- a/ticc/src/compiler/ir.rs
+++ b/ticc/src/compiler/ir.rs
@@ -19,7 +19,7 @@ pub(crate) struct Symbol(u64);
 
 impl Symbol {
     pub(crate) fn fresh() -> Symbol {
-        use std::sync::atomic;
+        use crate::sync::atomic;
         static NEXT: atomic::AtomicU64 = atomic::AtomicU64::new(0);
         let value = NEXT.fetch_add(1, atomic::Ordering::Relaxed);
         Symbol(value)
diff --git a/ticc/src/lib.rs b/ticc/src/lib.rs
index a31749b..2a03813 100644
--- a/ticc/src/lib.rs
+++ b/ticc/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)]
+
 #[macro_use]
 pub(crate) mod error;
 pub(crate) mod builtin;
@@ -7,6 +9,9 @@ pub(crate) mod import;
 pub(crate) mod interpreter;
 pub(crate) mod lint;
 pub(crate) mod api;
+pub(crate) mod sync;
+#[cfg(tic_sim)]
+pub mod sim;
 
 use std::collections::HashMap;
 use std::fmt;
@@ -118,6 +123,8 @@ impl CompilationUnit {
                 break;
             }
 
+            #[cfg(tic_sim)]
+            crate::sim::yield_point("item");
             let tail = &self.src[compiled..];
             let item_start = Pos::new(compiled as u32);
             let mut item = parser::parse_one_item(tail, item_start);
@@ -255,7 +262,7 @@ pub struct ModuleKey(u64);
 
 impl ModuleKey {
     fn fresh_key() -> ModuleKey {
-        use std::sync::atomic;
+        use crate::sync::atomic;
         static NEXT: atomic::AtomicU64 = atomic::AtomicU64::new(0);
         let value = NEXT.fetch_add(1, atomic::Ordering::Relaxed);
         ModuleKey(value)
diff --git a/ticc/src/sim.rs b/ticc/src/sim.rs
new file mode 100644
index 0000000..0375079
--- /dev/null
+++ b/ticc/src/sim.rs
@@ -0,0 +1,147 @@
+//! Decision points for deterministic simulation of the compiler.
+//!
+//! Only compiled with `--cfg tic_sim`. A simulation registers hooks for the
+//! current thread; without them everything behaves as if this module did not
+//! exist.
+
+use std::cell::RefCell;
+use std::sync::{Arc, LockResult, TryLockError};
+
+/// Decides how the threads of a simulation are interleaved. Called by the thread
+/// that reached the point, and returns when that thread is chosen to continue.
+pub trait Scheduler: Send + Sync {
+    /// The thread is about to touch shared state.
+    fn yield_point(&self, what: &'static str);
+    /// The thread can't continue until some lock is released.
+    fn blocked(&self);
+    /// The thread released a lock.
+    fn released(&self);
+}
+
+thread_local! {
+    static SCHEDULER: RefCell<Option<Arc<dyn Scheduler>>> = RefCell::new(None);
+    static PASS_ORDER: RefCell<Option<Box<dyn FnMut(usize) -> Vec<usize>>>> = RefCell::new(None);
+}
+
+pub fn set_scheduler(scheduler: Option<Arc<dyn Scheduler>>) {
+    SCHEDULER.with(|s| *s.borrow_mut() = scheduler);
+}
+
+/// Sets the function that decides which optimisation passes are run in an
+/// iteration. It gets the number of passes and returns their indices.
+pub fn set_pass_order(order: Option<Box<dyn FnMut(usize) -> Vec<usize>>>) {
+    PASS_ORDER.with(|p| *p.borrow_mut() = order);
+}
+
+pub(crate) fn arrange_passes<T: Copy>(passes: &[T]) -> Vec<T> {
+    PASS_ORDER.with(|p| match &mut *p.borrow_mut() {
+        Some(order) => order(passes.len()).into_iter().map(|i| passes[i]).collect(),
+        None => passes.to_vec(),
+    })
+}
+
+fn scheduler() -> Option<Arc<dyn Scheduler>> {
+    SCHEDULER.try_with(|s| s.borrow().clone()).ok().flatten()
+}
+
+pub fn yield_point(what: &'static str) {
+    if let Some(s) = scheduler() {
+        s.yield_point(what);
+    }
+}
+
+pub(crate) struct Mutex<T> {
+    inner: std::sync::Mutex<T>,
+}
+
+impl<T> Mutex<T> {
+    pub(crate) const fn new(value: T) -> Mutex<T> {
+        Mutex { inner: std::sync::Mutex::new(value) }
+    }
+
+    pub(crate) fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
+        let Some(scheduler) = scheduler() else {
+            return match self.inner.lock() {
+                Ok(guard) => Ok(MutexGuard { guard: Some(guard) }),
+                Err(e) => Err(std::sync::PoisonError::new(MutexGuard { guard: Some(e.into_inner()) })),
+            };
+        };
+        scheduler.yield_point("lock");
+        loop {
+            match self.inner.try_lock() {
+                Ok(guard) => return Ok(MutexGuard { guard: Some(guard) }),
+                Err(TryLockError::Poisoned(e)) => {
+                    return Err(std::sync::PoisonError::new(MutexGuard { guard: Some(e.into_inner()) }));
+                }
+                Err(TryLockError::WouldBlock) => scheduler.blocked(),
+            }
+        }
+    }
+}
+
+pub(crate) struct MutexGuard<'a, T> {
+    guard: Option<std::sync::MutexGuard<'a, T>>,
+}
+
+impl<T> std::ops::Deref for MutexGuard<'_, T> {
+    type Target = T;
+
+    fn deref(&self) -> &T {
+        self.guard.as_ref().unwrap()
+    }
+}
+
+impl<T> std::ops::DerefMut for MutexGuard<'_, T> {
+    fn deref_mut(&mut self) -> &mut T {
+        self.guard.as_mut().unwrap()
+    }
+}
+
+impl<T> Drop for MutexGuard<'_, T> {
+    fn drop(&mut self) {
+        self.guard = None;
+        if let Some(s) = scheduler() {
+            s.released();
+        }
+    }
+}
+
+pub(crate) mod atomic {
+    pub(crate) use std::sync::atomic::Ordering;
+
+    pub(crate) struct AtomicU64 {
+        inner: std::sync::atomic::AtomicU64,
+    }
+
+    #[allow(dead_code)]
+    impl AtomicU64 {
+        pub(crate) const fn new(value: u64) -> AtomicU64 {
+            AtomicU64 { inner: std::sync::atomic::AtomicU64::new(value) }
+        }
+
+        pub(crate) fn load(&self, order: Ordering) -> u64 {
+            super::yield_point("load");
+            self.inner.load(order)
+        }
+
+        pub(crate) fn store(&self, value: u64, order: Ordering) {
+            super::yield_point("store");
+            self.inner.store(value, order);
+        }
+
+        pub(crate) fn fetch_add(&self, value: u64, order: Ordering) -> u64 {
+            super::yield_point("fetch_add");
+            self.inner.fetch_add(value, order)
+        }
+
+        pub(crate) fn swap(&self, value: u64, order: Ordering) -> u64 {
+            super::yield_point("swap");
+            self.inner.swap(value, order)
+        }
+
+        pub(crate) fn compare_exchange(&self, current: u64, new: u64, success: Ordering, failure: Ordering) -> Result<u64, u64> {
+            super::yield_point("compare_exchange");
+            self.inner.compare_exchange(current, new, success, failure)
+        }
+    }
+}
diff --git a/ticc/src/sync.rs b/ticc/src/sync.rs
new file mode 100644
index 0000000..682b3db
--- /dev/null
+++ b/ticc/src/sync.rs
@@ -0,0 +1,9 @@
+//! Locks and counters shared by all compilations of a process. Simulations
+//! (`--cfg tic_sim`) replace them with ones that let a scheduler decide which
+//! thread goes next.
+
+#[cfg(not(tic_sim))]
+pub(crate) use std::sync::{atomic, Mutex};
+
+#[cfg(tic_sim)]
+pub(crate) use crate::sim::{atomic, Mutex};
-- 
2.43.0


From 0952e6e2e0f0ac5f11c92b010592f296426bb712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:06 +0000
Subject: [PATCH 13/32] fix: recognise imports of the same file under different
 paths

An import cycle that goes through `..` or `.` was not detected, the tool kept
recursing until the path became too long for the file system, and a file imported
under two spellings was compiled as two different modules.
---
 ticc/src/main.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/ticc/src/main.rs b/ticc/src/main.rs
index f23bb65..812763d 100644
--- a/ticc/src/main.rs
+++ b/ticc/src/main.rs
@@ -226,6 +226,7 @@ impl FileModuleResolver {
             props: Default::default(),
         });
         let child = Arc::new(ChildResolver {
+            identity: identity(&path),
             path,
             root: resolver.clone(),
             parent: None,
@@ -234,7 +235,13 @@ impl FileModuleResolver {
     }
 }
 
+/// The same file can be imported using differently spelled paths.
+fn identity(path: &Path) -> PathBuf {
+    path.canonicalize().unwrap_or_else(|_| path.to_owned())
+}
+
 struct ChildResolver {
+    identity: PathBuf,
     path: PathBuf,
     root: Arc<FileModuleResolver>,
     parent: Option<Arc<ChildResolver>>,
@@ -254,9 +261,10 @@ impl ChildResolver {
 impl ModuleResolver for ChildResolver {
     fn lookup(self: Arc<Self>, name: &str) -> Result<CompleteUnit, ticc::ImportError> {
         let path = self.relative_lookup(name);
+        let identity = identity(&path);
         let mut resolver = &*self;
         loop {
-            if resolver.path == path {
+            if resolver.identity == identity {
                 return Err(ticc::ImportError::ImportCycle);
             }
             match &resolver.parent {
@@ -267,7 +275,7 @@ impl ModuleResolver for ChildResolver {
 
         {
             let root = self.root.props.lock().unwrap();
-            if let Some(unit) = root.cache.get(&path).cloned() {
+            if let Some(unit) = root.cache.get(&identity).cloned() {
                 return Ok(unit);
             }
         }
@@ -278,6 +286,7 @@ impl ModuleResolver for ChildResolver {
         };
 
         let child_resolver = Arc::new(ChildResolver {
+            identity: identity.clone(),
             path: path.clone(),
             root: self.root.clone(),
             parent: Some(self.clone()),
@@ -293,7 +302,7 @@ impl ModuleResolver for ChildResolver {
 
         {
             let mut root = self.root.props.lock().unwrap();
-            root.cache.insert(path.clone(), unit.clone());
+            root.cache.insert(identity, unit.clone());
         }
 
         if diagnostics.iter().any(|d| d.severity == Severity::Error) {
-- 
2.43.0


From 935c5f3c7d77fefe27ff99f9f4106201b17de21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:50 +0000
Subject: [PATCH 14/32] fix: infer types of definitions without annotations

The type of the value was not connected to the type of the definition, which
stayed unknown. Code generation took it for an int and failed verification, and
other items could use the definition as a value of any type.
---
 ticc/src/compiler/typeck.rs | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/ticc/src/compiler/typeck.rs b/ticc/src/compiler/typeck.rs
index d205950..538b790 100644
--- a/ticc/src/compiler/typeck.rs
+++ b/ticc/src/compiler/typeck.rs
@@ -47,12 +47,7 @@ pub(crate) fn type_check(item: &mut ir::Item, defs: &DefSet) {
             let expected_ty = if let Some(name) = i.name() {
                 let span = name.token().span();
                 let def = item.defs.iter().find(|d| d.span == span).unwrap();
-                match &def.kind {
-                    ir::DefKind::Value { type_vars: _, ty } => {
-                        checker.unifier.instantiate(ty, &[])
-                    }
-                    _ => unreachable!(),
-                }
+                checker.lookup_name_opaque(def.symbol)
             } else {
                 checker.allocate(Ty::Error)
             };
@@ -73,11 +68,33 @@ pub(crate) fn type_check(item: &mut ir::Item, defs: &DefSet) {
         if let ir::DefKind::Value { ty, .. } = &mut def.kind {
             if let Some(&NameTy::Infer(inf)) = checker.symbol_types.get(&def.symbol) {
                 *ty = checker.unifier.to_ir(inf);
+                if def.vis != ir::Visibility::Local {
+                    // other items can't determine the rest of the type
+                    default_to_int(ty);
+                }
             }
         }
     }
 }
 
+/// Replaces the parts of the type that nothing depends on, in the same way as
+/// code generation does.
+fn default_to_int(ty: &mut ir::Type) {
+    match ty {
+        ir::Type::Infer => *ty = ir::Type::Int,
+        ir::Type::Int |
+        ir::Type::Bool |
+        ir::Type::String |
+        ir::Type::Error => {}
+        ir::Type::Named(_, args) => args.iter_mut().for_each(default_to_int),
+        ir::Type::Fn(a, b) |
+        ir::Type::Folded(a, b) => {
+            default_to_int(a);
+            default_to_int(b);
+        }
+    }
+}
+
 #[derive(Debug)]
 enum NameTy<'a> {
     Infer(TyIdx),
-- 
2.43.0


From a5cef638e1b57ea3fc5d1e26115ed66528b3535b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:20 +0000
Subject: [PATCH 15/32] fix: do not panic on hovering parts of incomplete
 expressions

---
 ticc/src/api/info.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ticc/src/api/info.rs b/ticc/src/api/info.rs
index 8f598d1..47acc98 100644
--- a/ticc/src/api/info.rs
+++ b/ticc/src/api/info.rs
@@ -48,10 +48,11 @@ fn def_info(compilation: &CompilationUnit, pos: Pos) -> Option<Info> {
 
 fn expr_info(compilation: &CompilationUnit, pos: Pos) -> Option<Info> {
     let (item, expr) = find_expr_at_pos(compilation, pos)?;
-    let ty = &item.types[&expr.syntax().id()];
+    // parts of incomplete expressions have no type
+    let ty = item.types.get(&expr.syntax().id())?;
     let mut type_printer = super::TypePrinter::new(compilation);
     let mut doc = String::new();
-    type_printer.print_type(&ty, &mut doc);
+    type_printer.print_type(ty, &mut doc);
     Some(Info {
         span: expr.syntax().span(),
         doc,
-- 
2.43.0


From fe7cf78025840e825fe2ce2ce7fc9e944e79f191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:20 +0000
Subject: [PATCH 16/32] fix: do not panic on matches over types without a name

---
 ticc/src/compiler/matchck.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ticc/src/compiler/matchck.rs b/ticc/src/compiler/matchck.rs
index c2fbb4b..2212c5a 100644
--- a/ticc/src/compiler/matchck.rs
+++ b/ticc/src/compiler/matchck.rs
@@ -56,7 +56,8 @@ fn check(
             return None;
         }
     };
-    let def = defs.lookup(ty_symbol);
+    // types without a name (an error by itself) have no definition
+    let def = defs.defs.get(&ty_symbol)?;
     let all_ctors = match &def.kind {
         ir::DefKind::Type { ctors: ir::Ctors::List(ctors), .. } => ctors.clone(),
         ir::DefKind::Type { ctors: ir::Ctors::Opaque, .. } => {
-- 
2.43.0


From 045234ca2c79bb9f399559730e0b2efa767a81fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:05 +0000
Subject: [PATCH 17/32] fix: answer navigation queries the same before and
 after the rest of the file is compiled

---
 ticc/src/api/info.rs       | 3 ++-
 ticc/src/api/navigation.rs | 7 ++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/ticc/src/api/info.rs b/ticc/src/api/info.rs
index 47acc98..e2b05f9 100644
--- a/ticc/src/api/info.rs
+++ b/ticc/src/api/info.rs
@@ -8,7 +8,8 @@ pub struct Info {
 }
 
 pub(crate) fn info_at(compilation: &mut CompilationUnit, pos: Pos) -> Option<Info> {
-    compilation.compile_up_to(pos.source_pos() + 1);
+    // imports after the position can name symbols used before it
+    compilation.compile_to_end();
     def_info(compilation, pos).or_else(|| expr_info(compilation, pos))
 }
 
diff --git a/ticc/src/api/navigation.rs b/ticc/src/api/navigation.rs
index 198ea87..6be1748 100644
--- a/ticc/src/api/navigation.rs
+++ b/ticc/src/api/navigation.rs
@@ -2,7 +2,8 @@ use crate::{CompilationUnit, Pos, Span};
 use crate::compiler::ir;
 
 pub(crate) fn find_definition(compilation: &mut CompilationUnit, pos: Pos) -> Option<Span> {
-    compilation.compile_up_to(pos.source_pos() + 1);
+    // imports after the position can name symbols used before it
+    compilation.compile_to_end();
     if let Some(r) = super::find_ref_at(compilation, pos) {
         super::find_def(compilation, r.symbol).map(|def| def.span)
     } else if let Some(def) = super::find_def_at(compilation, pos) {
@@ -16,7 +17,8 @@ pub(crate) fn find_definition(compilation: &mut CompilationUnit, pos: Pos) -> Op
 /// Returns `Some(vec![])` when there's a symbol at the given position, but
 /// there no references to that symbol in the code.
 pub(crate) fn find_references(compilation: &mut CompilationUnit, pos: Pos) -> Option<Vec<Span>> {
-    compilation.compile_up_to(pos.source_pos() + 1);
+    // imports after the position can name symbols used before it
+    compilation.compile_to_end();
     let symbol = super::find_def_or_ref_at(compilation, pos)?.symbol;
     let (item, def) = compilation.items
         .iter()
@@ -32,7 +34,6 @@ pub(crate) fn find_references(compilation: &mut CompilationUnit, pos: Pos) -> Op
             })
             .collect()
     } else {
-        compilation.compile_to_end();
         compilation.items
             .iter()
             .flat_map(|i| i.refs.iter())
-- 
2.43.0


From b79494f775412c9892ec969e61c476271de2d4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:30 +0000
Subject: [PATCH 18/32] fix: report a document importing itself as an import
 cycle in the language server

---
 ticc-lsp/src/main.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ticc-lsp/src/main.rs b/ticc-lsp/src/main.rs
index a038ed7..684d1bc 100644
--- a/ticc-lsp/src/main.rs
+++ b/ticc-lsp/src/main.rs
@@ -409,7 +409,15 @@ impl Compilation {
             let source_text = source.content.ok().unwrap_or_default();
 
             self.source_version = source.version;
-            self.dependencies.lock().unwrap().clear();
+            {
+                let mut dependencies = self.dependencies.lock().unwrap();
+                dependencies.clear();
+                // importing the document that is being compiled is a cycle
+                dependencies.insert(self.key.clone(), Dependency {
+                    unit: None,
+                    source_version: source.version,
+                });
+            }
             self.unit = CompilationUnit::new(
                 &source_text,
                 ticc::Options::default(),
-- 
2.43.0


From a7031e4d4e8c397bd5d5ad8f94b00edfba6f69ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:17 +0000
Subject: [PATCH 19/32] fix: names exposed by an import without a namespace
 answer editor queries

---
 ticc/src/api.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticc/src/api.rs b/ticc/src/api.rs
index cd3bd06..5dcfe9c 100644
--- a/ticc/src/api.rs
+++ b/ticc/src/api.rs
@@ -28,7 +28,7 @@ fn find_def_at(compilation: &CompilationUnit, pos: Pos) -> Option<&ir::Def> {
             continue;
         }
         for def in &item.defs {
-            if def.span.start() <= pos && pos <= def.span.end() {
+            if def.has_name && def.span.start() <= pos && pos <= def.span.end() {
                 return Some(&def);
             }
         }
-- 
2.43.0


From c894b6cd7f104dd988a62eb6a65bb257579bb4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:25 +0000
Subject: [PATCH 20/32] fix: positions past the end of a line do not include
 the line's carriage return

---
 ticc-lsp/src/utils.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ticc-lsp/src/utils.rs b/ticc-lsp/src/utils.rs
index e1d2671..9967b44 100644
--- a/ticc-lsp/src/utils.rs
+++ b/ticc-lsp/src/utils.rs
@@ -113,6 +113,12 @@ impl ToTicc for Position {
                     None => translator.source.len(),
                 };
                 let line_source = &translator.source[line_start..line_end];
+                // carriage return is a part of the line terminator
+                let line_source = match next {
+                    Some(_) => line_source.strip_suffix('\r').unwrap_or(line_source),
+                    None => line_source,
+                };
+                let line_end = line_start + line_source.len();
                 let mut current = 0;
                 for (i, c) in line_source.char_indices() {
                     current += c.len_utf16();
-- 
2.43.0


From 702b659d782b04ec7d38e9251db8ac991aac9142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:39 +0000
Subject: [PATCH 21/32] fix: treat import names as file paths, not url
 references, in the language server

---
 ticc-lsp/src/main.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ticc-lsp/src/main.rs b/ticc-lsp/src/main.rs
index 684d1bc..23cdbc1 100644
--- a/ticc-lsp/src/main.rs
+++ b/ticc-lsp/src/main.rs
@@ -443,6 +443,18 @@ struct CompilationModuleResolver {
 
 impl CompilationModuleResolver {
     fn name_to_key(&self, name: &str) -> Option<FileKey> {
+        // names of files are paths, not url references: '?', '#' and '%' mean nothing in them
+        if let Ok(mut path) = self.current_key.0.to_file_path() {
+            path.pop();
+            for segment in name.split('/') {
+                match segment {
+                    "" | "." => {}
+                    ".." => { path.pop(); }
+                    segment => path.push(segment),
+                }
+            }
+            return lsp_types::Url::from_file_path(path).ok().map(FileKey);
+        }
         self.current_key.0.join(name).ok().map(FileKey)
     }
 }
-- 
2.43.0


From 61212403abc20cfa925f63017209e45938863d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:51 +0000
Subject: [PATCH 22/32] fix: recognise files whose urls the client
 percent-encodes differently

---
 ticc-lsp/src/main.rs | 42 +++++++++++++++++++++++++++++++++++++-----
 1 file changed, 37 insertions(+), 5 deletions(-)

diff --git a/ticc-lsp/src/main.rs b/ticc-lsp/src/main.rs
index 23cdbc1..651b46c 100644
--- a/ticc-lsp/src/main.rs
+++ b/ticc-lsp/src/main.rs
@@ -36,12 +36,44 @@ type Result<T, E = Error> = std::result::Result<T, E>;
 
 type ReadFile = Arc<dyn Fn(&Path) -> Result<String, std::io::Error> + Send + Sync>;
 
-#[derive(PartialEq, Eq, PartialOrd, Ord, Debug, Hash, Clone)]
-struct FileKey(lsp_types::Url);
+/// A file, with its url spelled the way the client does. Clients differ in
+/// which characters they percent-encode, so files are told apart by paths.
+#[derive(Debug, Clone)]
+struct FileKey(lsp_types::Url, lsp_types::Url);
 
 impl From<lsp_types::Url> for FileKey {
     fn from(url: lsp_types::Url) -> FileKey {
-        FileKey(url)
+        let canonical = url
+            .to_file_path()
+            .and_then(lsp_types::Url::from_file_path)
+            .unwrap_or_else(|()| url.clone());
+        FileKey(url, canonical)
+    }
+}
+
+impl PartialEq for FileKey {
+    fn eq(&self, other: &FileKey) -> bool {
+        self.1 == other.1
+    }
+}
+
+impl Eq for FileKey {}
+
+impl PartialOrd for FileKey {
+    fn partial_cmp(&self, other: &FileKey) -> Option<std::cmp::Ordering> {
+        Some(self.cmp(other))
+    }
+}
+
+impl Ord for FileKey {
+    fn cmp(&self, other: &FileKey) -> std::cmp::Ordering {
+        self.1.cmp(&other.1)
+    }
+}
+
+impl std::hash::Hash for FileKey {
+    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
+        self.1.hash(state);
     }
 }
 
@@ -453,9 +485,9 @@ impl CompilationModuleResolver {
                     segment => path.push(segment),
                 }
             }
-            return lsp_types::Url::from_file_path(path).ok().map(FileKey);
+            return lsp_types::Url::from_file_path(path).ok().map(FileKey::from);
         }
-        self.current_key.0.join(name).ok().map(FileKey)
+        self.current_key.0.join(name).ok().map(FileKey::from)
     }
 }
 
-- 
2.43.0


From 67a50d83bc7b708c55d636500ed259f9a7630e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:23 +0000
Subject: [PATCH 23/32] fix: do not compile a module twice when the path of one
 import cannot be resolved

---
 ticc/src/main.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/ticc/src/main.rs b/ticc/src/main.rs
index 812763d..dcdb901 100644
--- a/ticc/src/main.rs
+++ b/ticc/src/main.rs
@@ -226,7 +226,7 @@ impl FileModuleResolver {
             props: Default::default(),
         });
         let child = Arc::new(ChildResolver {
-            identity: identity(&path),
+            identity: path.canonicalize().unwrap_or_else(|_| path.clone()),
             path,
             root: resolver.clone(),
             parent: None,
@@ -235,12 +235,8 @@ impl FileModuleResolver {
     }
 }
 
-/// The same file can be imported using differently spelled paths.
-fn identity(path: &Path) -> PathBuf {
-    path.canonicalize().unwrap_or_else(|_| path.to_owned())
-}
-
 struct ChildResolver {
+    /// The same file can be imported using differently spelled paths.
     identity: PathBuf,
     path: PathBuf,
     root: Arc<FileModuleResolver>,
@@ -261,7 +257,7 @@ impl ChildResolver {
 impl ModuleResolver for ChildResolver {
     fn lookup(self: Arc<Self>, name: &str) -> Result<CompleteUnit, ticc::ImportError> {
         let path = self.relative_lookup(name);
-        let identity = identity(&path);
+        let identity = path.canonicalize().map_err(ticc::ImportError::Io)?;
         let mut resolver = &*self;
         loop {
             if resolver.identity == identity {
-- 
2.43.0


From 231c531eb000304b1e36fa9e2155ff5cf9c26c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:12 +0000
Subject: [PATCH 24/32] fix: write all pending responses before ending on
 broken input

---
 ticc-lsp/src/main.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ticc-lsp/src/main.rs b/ticc-lsp/src/main.rs
index 651b46c..f3a809b 100644
--- a/ticc-lsp/src/main.rs
+++ b/ticc-lsp/src/main.rs
@@ -246,7 +246,12 @@ fn main() -> Result<()> {
 
     run(connection, Arc::new(|path| std::fs::read_to_string(path)));
 
-    io_threads.join()?;
+    if let Err(e) = io_threads.join() {
+        // the input may have ended in the middle of a message, and the
+        // writer holds the lock until it has written all responses
+        let _stdout = std::io::stdout().lock();
+        return Err(e.into());
+    }
     eprintln!("shutting down server");
     Ok(())
 }
-- 
2.43.0


From f2f77a42bdc530efb8b399ec2510fbae84a20afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:07 +0000
Subject: [PATCH 25/32] hooks: complete the simulated locks and counters

---
 ticc/src/sim.rs | 125 +++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 96 insertions(+), 29 deletions(-)

diff --git a/ticc/src/sim.rs b/ticc/src/sim.rs
index 0375079..944c0ac 100644
--- a/ticc/src/sim.rs
+++ b/ticc/src/sim.rs
@@ -79,6 +79,42 @@ impl<T> Mutex<T> {
     }
 }
 
+#[allow(dead_code)]
+impl<T> Mutex<T> {
+    pub(crate) fn try_lock(&self) -> Result<MutexGuard<'_, T>, TryLockError<MutexGuard<'_, T>>> {
+        yield_point("try_lock");
+        match self.inner.try_lock() {
+            Ok(guard) => Ok(MutexGuard { guard: Some(guard) }),
+            Err(TryLockError::Poisoned(e)) => {
+                Err(std::sync::PoisonError::new(MutexGuard { guard: Some(e.into_inner()) }).into())
+            }
+            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
+        }
+    }
+
+    pub(crate) fn get_mut(&mut self) -> LockResult<&mut T> {
+        self.inner.get_mut()
+    }
+
+    pub(crate) fn into_inner(self) -> LockResult<T> {
+        self.inner.into_inner()
+    }
+
+    pub(crate) fn is_poisoned(&self) -> bool {
+        self.inner.is_poisoned()
+    }
+
+    pub(crate) fn clear_poison(&self) {
+        self.inner.clear_poison()
+    }
+}
+
+impl<T: Default> Default for Mutex<T> {
+    fn default() -> Mutex<T> {
+        Mutex::new(T::default())
+    }
+}
+
 pub(crate) struct MutexGuard<'a, T> {
     guard: Option<std::sync::MutexGuard<'a, T>>,
 }
@@ -107,41 +143,72 @@ impl<T> Drop for MutexGuard<'_, T> {
 }
 
 pub(crate) mod atomic {
-    pub(crate) use std::sync::atomic::Ordering;
+    #[allow(unused_imports)]
+    pub(crate) use std::sync::atomic::*;
+
+    macro_rules! atomic_int {
+        ($name:ident, $int:ty) => {
+            #[allow(dead_code)]
+            #[derive(Default)]
+            pub(crate) struct $name {
+                inner: std::sync::atomic::$name,
+            }
 
-    pub(crate) struct AtomicU64 {
-        inner: std::sync::atomic::AtomicU64,
-    }
+            #[allow(dead_code)]
+            #[allow(deprecated)]
+            impl $name {
+                pub(crate) const fn new(value: $int) -> $name {
+                    $name { inner: std::sync::atomic::$name::new(value) }
+                }
 
-    #[allow(dead_code)]
-    impl AtomicU64 {
-        pub(crate) const fn new(value: u64) -> AtomicU64 {
-            AtomicU64 { inner: std::sync::atomic::AtomicU64::new(value) }
-        }
+                pub(crate) fn load(&self, order: Ordering) -> $int {
+                    super::yield_point("load");
+                    self.inner.load(order)
+                }
 
-        pub(crate) fn load(&self, order: Ordering) -> u64 {
-            super::yield_point("load");
-            self.inner.load(order)
-        }
+                pub(crate) fn store(&self, value: $int, order: Ordering) {
+                    super::yield_point("store");
+                    self.inner.store(value, order);
+                }
 
-        pub(crate) fn store(&self, value: u64, order: Ordering) {
-            super::yield_point("store");
-            self.inner.store(value, order);
-        }
+                pub(crate) fn fetch_add(&self, value: $int, order: Ordering) -> $int {
+                    super::yield_point("fetch_add");
+                    self.inner.fetch_add(value, order)
+                }
 
-        pub(crate) fn fetch_add(&self, value: u64, order: Ordering) -> u64 {
-            super::yield_point("fetch_add");
-            self.inner.fetch_add(value, order)
-        }
+                pub(crate) fn fetch_sub(&self, value: $int, order: Ordering) -> $int {
+                    super::yield_point("fetch_sub");
+                    self.inner.fetch_sub(value, order)
+                }
 
-        pub(crate) fn swap(&self, value: u64, order: Ordering) -> u64 {
-            super::yield_point("swap");
-            self.inner.swap(value, order)
-        }
+                pub(crate) fn fetch_max(&self, value: $int, order: Ordering) -> $int {
+                    super::yield_point("fetch_max");
+                    self.inner.fetch_max(value, order)
+                }
 
-        pub(crate) fn compare_exchange(&self, current: u64, new: u64, success: Ordering, failure: Ordering) -> Result<u64, u64> {
-            super::yield_point("compare_exchange");
-            self.inner.compare_exchange(current, new, success, failure)
-        }
+                pub(crate) fn swap(&self, value: $int, order: Ordering) -> $int {
+                    super::yield_point("swap");
+                    self.inner.swap(value, order)
+                }
+
+                pub(crate) fn compare_exchange(&self, current: $int, new: $int, success: Ordering, failure: Ordering) -> Result<$int, $int> {
+                    super::yield_point("compare_exchange");
+                    self.inner.compare_exchange(current, new, success, failure)
+                }
+
+                pub(crate) fn compare_exchange_weak(&self, current: $int, new: $int, success: Ordering, failure: Ordering) -> Result<$int, $int> {
+                    self.compare_exchange(current, new, success, failure)
+                }
+
+                pub(crate) fn fetch_update(&self, set: Ordering, fetch: Ordering, f: impl FnMut($int) -> Option<$int>) -> Result<$int, $int> {
+                    super::yield_point("fetch_update");
+                    self.inner.fetch_update(set, fetch, f)
+                }
+            }
+        };
     }
+
+    atomic_int!(AtomicU64, u64);
+    atomic_int!(AtomicU32, u32);
+    atomic_int!(AtomicUsize, usize);
 }
-- 
2.43.0


From d473bd00d56725bf1d45a2bdd4bf19818cae3fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:56 +0000
Subject: [PATCH 26/32] fix: offer the types and constructors of a module in
 completions after its name

---
 ticc/src/api/completion.rs   | 18 +++++++++---------
 ticc/src/compiler/resolve.rs |  8 ++++----
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/ticc/src/api/completion.rs b/ticc/src/api/completion.rs
index 362d70a..5d899f6 100644
--- a/ticc/src/api/completion.rs
+++ b/ticc/src/api/completion.rs
@@ -1,7 +1,7 @@
 use std::collections::HashMap;
 
 use ticc_syntax::Pos;
-use crate::{CompilationUnit, CompleteUnit, RawDiagnostic};
+use crate::{CompilationUnit, CompleteUnit, Namespace, RawDiagnostic};
 use crate::compiler::{Scope, ir, resolve, syntax::{AstNode, node}};
 
 pub struct Completion {
@@ -78,14 +78,14 @@ fn add_keys_from<T>(completions: &mut Vec<Completion>, map: &HashMap<&str, T>) {
 }
 
 fn add_exports(completions: &mut Vec<Completion>, unit: &CompleteUnit, for_usage: resolve::NameUsage) {
-    for (name, def) in &unit.props.exports {
-        let kind = match def.kind {
-            ir::DefKind::Value {.. } => resolve::NameUsage::Value,
-            ir::DefKind::Ctor { .. } => resolve::NameUsage::Ctor,
-            ir::DefKind::Type { .. } => resolve::NameUsage::Type,
-            ir::DefKind::Module { .. } => resolve::NameUsage::Module,
-        };
-        if kind == for_usage {
+    let namespace = match for_usage {
+        resolve::NameUsage::Value => Namespace::Value,
+        resolve::NameUsage::Ctor => Namespace::Pattern,
+        resolve::NameUsage::Type => Namespace::Type,
+        resolve::NameUsage::Module => Namespace::Module,
+    };
+    for name in unit.props.exports.keys() {
+        if name.namespace == namespace {
             completions.push(Completion { name: name.name.clone() })
         }
     }
diff --git a/ticc/src/compiler/resolve.rs b/ticc/src/compiler/resolve.rs
index 2f59acf..8bb64bc 100644
--- a/ticc/src/compiler/resolve.rs
+++ b/ticc/src/compiler/resolve.rs
@@ -321,7 +321,7 @@ fn resolve_type(sink: &mut impl ResolveSink, ty: node::Type<'_>, scope: &Scope<'
                 (Some(namespace), Some(name)) => {
                     sink.on_name(namespace, NameUsage::Module, scope, Namespace::None);
                     if let Some(module) = scope.lookup_module(namespace.token().text()) {
-                        sink.on_name(name, NameUsage::Value, scope, Namespace::Module(module.clone()));
+                        sink.on_name(name, NameUsage::Type, scope, Namespace::Module(module.clone()));
                         // TODO: sink.record_ref for the module usage
                         match module.props.find_export(crate::Namespace::Type, name.token().text()) {
                             Ok(def) => {
@@ -346,7 +346,7 @@ fn resolve_type(sink: &mut impl ResolveSink, ty: node::Type<'_>, scope: &Scope<'
                             }
                         }
                     } else {
-                        sink.on_name(name, NameUsage::Value, scope, Namespace::UnresolvedModule);
+                        sink.on_name(name, NameUsage::Type, scope, Namespace::UnresolvedModule);
                         sink.record_error(RawDiagnostic {
                             span: namespace.token().span(),
                             severity: Severity::Error,
@@ -411,7 +411,7 @@ fn resolve_type_with_vars<'a>(sink: &mut impl ResolveSink, module: ModuleKey, ty
                 (Some(namespace), Some(name)) => {
                     sink.on_name(namespace, NameUsage::Module, scope, Namespace::None);
                     if let Some(module) = scope.lookup_module(namespace.token().text()) {
-                        sink.on_name(name, NameUsage::Value, scope, Namespace::Module(module.clone()));
+                        sink.on_name(name, NameUsage::Type, scope, Namespace::Module(module.clone()));
                         // TODO: sink.record_ref for the module usage
                         match module.props.find_export(crate::Namespace::Type, name.token().text()) {
                             Ok(def) => {
@@ -436,7 +436,7 @@ fn resolve_type_with_vars<'a>(sink: &mut impl ResolveSink, module: ModuleKey, ty
                             }
                         }
                     } else {
-                        sink.on_name(name, NameUsage::Value, scope, Namespace::UnresolvedModule);
+                        sink.on_name(name, NameUsage::Type, scope, Namespace::UnresolvedModule);
                         sink.record_error(RawDiagnostic {
                             span: namespace.token().span(),
                             severity: Severity::Error,
-- 
2.43.0


From b7ddbb48d90bdc84a111da2caef6159f4b01ea54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:55 +0000
Subject: [PATCH 27/32] fix: name the output file, not the source, when it
 cannot be written

---
 ticc/src/main.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ticc/src/main.rs b/ticc/src/main.rs
index dcdb901..761e2b9 100644
--- a/ticc/src/main.rs
+++ b/ticc/src/main.rs
@@ -96,7 +96,7 @@ fn main() {
             println!("{}", ir);
         } else {
             std::fs::write(&output_file, ir.as_bytes()).unwrap_or_else(|e| {
-                eprintln!("error: cannot write {}", path.display());
+                eprintln!("error: cannot write {}", output_file.display());
                 eprintln!("    {}", e);
                 std::process::exit(1);
             });
@@ -113,7 +113,7 @@ fn main() {
             println!("{}", result);
         } else {
             std::fs::write(&output_file, result.as_bytes()).unwrap_or_else(|e| {
-                eprintln!("error: cannot write {}", path.display());
+                eprintln!("error: cannot write {}", output_file.display());
                 eprintln!("    {}", e);
                 std::process::exit(1);
             });
@@ -149,7 +149,7 @@ fn main() {
             println!("{}", String::from_utf8_lossy(&result));
         } else {
             std::fs::write(&output_file, result).unwrap_or_else(|e| {
-                eprintln!("error: cannot write {}", path.display());
+                eprintln!("error: cannot write {}", output_file.display());
                 eprintln!("    {}", e);
                 std::process::exit(1);
             });
-- 
2.43.0


From bd1d2edd11c4cf69a5f49d3dcbf56fdaa28d1e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:27 +0000
Subject: [PATCH 28/32] fix: free the compiled imports of a document when it is
 closed

---
 ticc-lsp/src/main.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ticc-lsp/src/main.rs b/ticc-lsp/src/main.rs
index f3a809b..199a6f1 100644
--- a/ticc-lsp/src/main.rs
+++ b/ticc-lsp/src/main.rs
@@ -472,6 +472,14 @@ impl Compilation {
     }
 }
 
+impl Drop for Compilation {
+    fn drop(&mut self) {
+        // compiled dependencies keep their resolvers, and these keep the
+        // dependencies: nothing of this would ever be freed
+        self.dependencies.lock().unwrap().clear();
+    }
+}
+
 struct CompilationModuleResolver {
     current_key: FileKey,
     dependencies: Arc<Mutex<HashMap<FileKey, Dependency>>>,
-- 
2.43.0


From aba218469c39001b14a6fa448d21ae915738943a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:28 +0000
Subject: [PATCH 29/32] fix: do not truncate sizes of heap objects and live
 data past 4 GiB

---
 ticc-eval/src/bytecode.rs |  8 ++++----
 ticc-eval/src/heap.rs     | 42 ++++++++++++++++++++++-----------------
 ticc-eval/src/jit.rs      |  8 ++++----
 3 files changed, 32 insertions(+), 26 deletions(-)

diff --git a/ticc-eval/src/bytecode.rs b/ticc-eval/src/bytecode.rs
index 9b39fc7..7f28698 100644
--- a/ticc-eval/src/bytecode.rs
+++ b/ticc-eval/src/bytecode.rs
@@ -333,7 +333,7 @@ impl Runtime {
                     concat.extend(bytes1);
                     concat.extend(bytes2);
                     self.ensure_free(Heap::alloc_size(concat.len()));
-                    let obj = self.heap.alloc_bytes(concat.len() as u64 | STRING_TAG, concat.len() as u32);
+                    let obj = self.heap.alloc_bytes(concat.len() as u64 | STRING_TAG, concat.len());
                     obj.bytes[..concat.len()].copy_from_slice(&concat);
                     self.stack.push(Value::Ptr(obj.addr));
 
@@ -352,7 +352,7 @@ impl Runtime {
                     let x = self.stack.pop_int();
                     let s = x.to_string();
                     self.ensure_free(Heap::alloc_size(s.len()));
-                    let obj = self.heap.alloc_bytes(s.len() as u64 | STRING_TAG, s.len() as u32);
+                    let obj = self.heap.alloc_bytes(s.len() as u64 | STRING_TAG, s.len());
                     obj.bytes[..s.len()].copy_from_slice(s.as_bytes());
                     self.stack.push(Value::Ptr(obj.addr));
 
@@ -369,7 +369,7 @@ impl Runtime {
                     let bytes = bytes.get(..take_len).unwrap_or(bytes);
                     let bytes = bytes.to_vec();
                     self.ensure_free(Heap::alloc_size(bytes.len()));
-                    let obj = self.heap.alloc_bytes(bytes.len() as u64 | STRING_TAG, bytes.len() as u32);
+                    let obj = self.heap.alloc_bytes(bytes.len() as u64 | STRING_TAG, bytes.len());
                     obj.bytes[..bytes.len()].copy_from_slice(&bytes);
                     self.stack.push(Value::Ptr(obj.addr));
 
@@ -493,7 +493,7 @@ fn link(heap: &mut Heap, consts: &mut Vec<Addr>, ops: Vec<compile::Op>) -> (Vec<
                 if heap.free_space() < need_bytes {
                     heap.collect_and_grow(consts.iter_mut(), need_bytes);
                 }
-                let obj = heap.alloc_bytes(s.len() as u64 | STRING_TAG, s.len() as u32);
+                let obj = heap.alloc_bytes(s.len() as u64 | STRING_TAG, s.len());
                 obj.bytes[..s.len()].copy_from_slice(&s);
                 consts.push(obj.addr);
                 Op::Const(consts.len() - 1)
diff --git a/ticc-eval/src/heap.rs b/ticc-eval/src/heap.rs
index 07c04e3..fcc7d3a 100644
--- a/ticc-eval/src/heap.rs
+++ b/ticc-eval/src/heap.rs
@@ -28,7 +28,7 @@ impl Heap {
         }
     }
 
-    pub(crate) fn alloc_bytes(&mut self, tag: u64, bytes: u32) -> BytesAlloc<'_> {
+    pub(crate) fn alloc_bytes(&mut self, tag: u64, bytes: usize) -> BytesAlloc<'_> {
         let (addr, _, bytes) = self.raw_alloc(tag, bytes);
         BytesAlloc {
             addr,
@@ -38,7 +38,7 @@ impl Heap {
 
     pub(crate) fn alloc_object(&mut self, tag: u64, fields: u32) -> ObjAlloc<'_> {
         let extra_ptrs = Header::extra_ptr_words(fields);
-        let (addr, header, bytes) = self.raw_alloc(tag, (fields + extra_ptrs) * 8);
+        let (addr, header, bytes) = self.raw_alloc(tag, (fields + extra_ptrs) as usize * 8);
         header.extra_ptrs = extra_ptrs as u16;
         let (fields, extra_ptrs) = bytes_to_words_mut(bytes).split_at_mut(fields as usize);
         extra_ptrs.fill(0);
@@ -50,16 +50,17 @@ impl Heap {
         }
     }
 
-    fn raw_alloc(&mut self, tag: u64, bytes: u32) -> (Addr, &mut Header, &mut [u8]) {
+    fn raw_alloc(&mut self, tag: u64, bytes: usize) -> (Addr, &mut Header, &mut [u8]) {
         let bytes = round_up(bytes);
-        let total_size = (Header::SIZE + bytes) as usize;
+        let total_size = Header::SIZE as usize + bytes;
+        assert!(total_size / 8 <= u32::MAX as usize, "object is too large");
         if self.bump < total_size {
             panic!("not enough space left to allocate (capacity = {}, free = {}, request = {})", self.bytes.raw.len(), self.bump, total_size);
         }
         self.bump -= total_size;
         let addr = Addr(self.bump as u64);
         *self.bytes.obj_header(addr) = Header {
-            size: total_size as u32,
+            words: (total_size / 8) as u32,
             mark: 0,
             extra_ptrs: 0,
             ptrs: 0,
@@ -83,7 +84,7 @@ impl Heap {
         let roots = roots.collect::<Vec<_>>();
         let mut pending = Vec::new();
         let mut retained = Vec::new();
-        let mut retained_bytes = 0;
+        let mut retained_bytes = 0usize;
         for &&mut r in &roots {
             self.bytes.obj_header(r).mark = 1;
         }
@@ -91,13 +92,13 @@ impl Heap {
         while current.0 < self.bytes.raw.len() as u64 {
             let (header, bytes) = self.bytes.obj_parts_mut(current);
             if header.mark == 0 {
-                current.0 += u64::from(header.size);
+                current.0 += header.size() as u64;
                 continue;
             }
             header.mark = 0;
             retained.push(current);
-            retained_bytes += header.size;
-            current.0 += u64::from(header.size);
+            retained_bytes += header.size();
+            current.0 += header.size() as u64;
             if header.ptrs != 0 || header.extra_ptrs != 0 {
                 let ptrs = header.ptrs;
                 let (fields, extra_ptrs) = header.split_extra_ptrs(bytes_to_words(bytes));
@@ -110,20 +111,20 @@ impl Heap {
                 }
             }
         }
-        let min_capacity = (retained_bytes as usize * 4)
+        let min_capacity = (retained_bytes * 4)
             .max(self.bytes.raw.len())
-            .max(ensure_free + retained_bytes as usize);
+            .max(ensure_free + retained_bytes);
         if min_capacity > self.bytes.raw.len() {
             self.bytes.raw.ensure_size(min_capacity);
             self.move_dst.resize(self.bytes.raw.len() / (Header::SIZE as usize), Addr(0));
         }
         let mut new_bump = self.bytes.raw.len();
         for addr in retained.into_iter().rev() {
-            let size = self.bytes.obj_header(addr).size;
-            let place_at = new_bump - size as usize;
+            let size = self.bytes.obj_header(addr).size();
+            let place_at = new_bump - size;
             let new_addr = Addr(place_at as u64);
             new_bump = place_at;
-            self.bytes.raw.copy_within((addr.0 as usize)..((addr.0 + u64::from(size)) as usize), place_at);
+            self.bytes.raw.copy_within((addr.0 as usize)..(addr.0 as usize + size), place_at);
             self.move_dst[(addr.0 / u64::from(Header::SIZE)) as usize] = new_addr;
             let (header, fields) = self.bytes.obj_fields_mut(new_addr);
             if header.ptrs != 0 || header.extra_ptrs != 0 {
@@ -214,7 +215,7 @@ impl HeapBytes {
         let bytes = &mut self.raw[addr.0 as usize..];
         let (header, rest) = bytes.split_at_mut(Header::SIZE as usize);
         let header = unsafe { &mut *(header.as_mut_ptr() as *mut Header) };
-        let bytes = &mut rest[..((header.size - Header::SIZE) as usize)];
+        let bytes = &mut rest[..(header.size() - Header::SIZE as usize)];
         (header, bytes)
     }
 
@@ -233,7 +234,7 @@ impl HeapBytes {
         let bytes = &self.raw[addr.0 as usize..];
         let (header, rest) = bytes.split_at(Header::SIZE as usize);
         let header = unsafe { &*(header.as_ptr() as *const Header) };
-        let bytes = &rest[..((header.size - Header::SIZE) as usize)];
+        let bytes = &rest[..(header.size() - Header::SIZE as usize)];
         (header, bytes)
     }
 
@@ -264,7 +265,7 @@ fn is_ptr(ptrs: u64, extra_ptrs: &[u64], field: usize) -> bool {
     word & (1 << (field % 64)) != 0
 }
 
-fn round_up(bytes: u32) -> u32 {
+fn round_up(bytes: usize) -> usize {
     (bytes + 7) / 8 * 8
 }
 
@@ -297,7 +298,8 @@ pub(crate) struct BytesAlloc<'a> {
 
 #[repr(C)]
 struct Header {
-    size: u32,
+    // size in words, all sizes are rounded up to whole words
+    words: u32,
     mark: u16,
     // count of trailing words that tell which of the fields past the first 64
     // are pointers
@@ -311,6 +313,10 @@ impl Header {
 
     const _ASSERT_ALIGNED: () = assert!(Self::SIZE % 8 == 0);
 
+    fn size(&self) -> usize {
+        self.words as usize * 8
+    }
+
     fn extra_ptr_words(fields: u32) -> u32 {
         fields.saturating_sub(1) / 64
     }
diff --git a/ticc-eval/src/jit.rs b/ticc-eval/src/jit.rs
index 66f4545..88a8fa5 100644
--- a/ticc-eval/src/jit.rs
+++ b/ticc-eval/src/jit.rs
@@ -294,7 +294,7 @@ fn assemble(ops: &[compile::Op], heap: &mut Heap) -> Result<Assembled, iced_x86:
                     heap.collect_and_grow(consts.iter_mut(), need_bytes);
                 }
 
-                let str = heap.alloc_bytes(s.len() as u64 + STRING_TAG, s.len() as u32);
+                let str = heap.alloc_bytes(s.len() as u64 + STRING_TAG, s.len());
                 str.bytes[..s.len()].copy_from_slice(s);
                 let const_idx = consts.len();
                 consts.push(str.addr);
@@ -742,7 +742,7 @@ extern "C" fn string_concat(state: &mut ExecState) {
     let mut concat = Vec::with_capacity(bytes1.len() + bytes2.len());
     concat.extend(bytes1);
     concat.extend(bytes2);
-    let obj = heap.alloc_bytes(concat.len() as u64 | STRING_TAG, concat.len() as u32);
+    let obj = heap.alloc_bytes(concat.len() as u64 | STRING_TAG, concat.len());
     obj.bytes[..concat.len()].copy_from_slice(&concat);
     state.push_ptr(obj.addr);
 
@@ -783,7 +783,7 @@ extern "C" fn int_to_string(state: &mut ExecState) {
     let x = state.pick_int(0);
     state.pop();
     let s = x.to_string();
-    let obj = heap.alloc_bytes(s.len() as u64 | STRING_TAG, s.len() as u32);
+    let obj = heap.alloc_bytes(s.len() as u64 | STRING_TAG, s.len());
     obj.bytes[..s.len()].copy_from_slice(s.as_bytes());
     state.push_ptr(obj.addr);
 
@@ -804,7 +804,7 @@ extern "C" fn string_substring(state: &mut ExecState) {
     let bytes = bytes.get(start..).unwrap_or(&[]);
     let bytes = bytes.get(..take_len).unwrap_or(bytes);
     let bytes = bytes.to_vec();
-    let obj = heap.alloc_bytes(bytes.len() as u64 | STRING_TAG, bytes.len() as u32);
+    let obj = heap.alloc_bytes(bytes.len() as u64 | STRING_TAG, bytes.len());
     obj.bytes[..bytes.len()].copy_from_slice(&bytes);
     state.push_ptr(obj.addr);
 
-- 
2.43.0


From 6c6f1ce559859de2ecdc8ef3e800cc1279a4e4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:28 +0000
Subject: [PATCH 30/32] hooks: heap objects of any size in the simulated heap

---
 ticc-eval/src/sim.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticc-eval/src/sim.rs b/ticc-eval/src/sim.rs
index 8d98065..cdc9d33 100644
--- a/ticc-eval/src/sim.rs
+++ b/ticc-eval/src/sim.rs
@@ -113,7 +113,7 @@ impl SimHeap {
     }
 
     pub fn alloc_bytes(&mut self, tag: u64, bytes: &[u8]) -> SimAddr {
-        let obj = self.heap.alloc_bytes(tag, bytes.len() as u32);
+        let obj = self.heap.alloc_bytes(tag, bytes.len());
         obj.bytes[..bytes.len()].copy_from_slice(bytes);
         SimAddr(obj.addr)
     }
-- 
2.43.0


From 2c8651d1de2ea7da13caaadb6699de72f9daa51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:07 +0000
Subject: [PATCH 31/32] fix: do not panic on importing definitions of types
 without a name

---
 ticc/src/compiler/kindck.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ticc/src/compiler/kindck.rs b/ticc/src/compiler/kindck.rs
index 01710f8..8d070c3 100644
--- a/ticc/src/compiler/kindck.rs
+++ b/ticc/src/compiler/kindck.rs
@@ -37,7 +37,8 @@ fn check_ty(defs: &DefSet, ty: &mut ir::Type) {
             for t in ts.iter_mut() {
                 check_ty(defs, t);
             }
-            let def = defs.lookup(*s);
+            // types without a name (an error by itself) have no definition
+            let Some(def) = defs.defs.get(s) else { return };
             match def.kind {
                 ir::DefKind::Type { param_count, .. } => {
                     if ts.len() != param_count {
-- 
2.43.0


From c7536a88851a9188dffaf146eab90048bdad4650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:07 +0000
Subject: [PATCH 32/32] fix: gcd of numbers that need more than 65 steps

---
 ticc/src/std/int.tic | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticc/src/std/int.tic b/ticc/src/std/int.tic
index c025fc3..d161eb3 100644
--- a/ticc/src/std/int.tic
+++ b/ticc/src/std/int.tic
@@ -60,7 +60,7 @@ export let gcd : int -> int -> int =
                 GcdState b (a % b)
         end;
     \a -> \b ->
-        match i.iterate 65 stepState (GcdState a b) with
+        match i.iterate 93 stepState (GcdState a b) with
         | GcdState x _ -> x
         end;
 
-- 
2.43.0

