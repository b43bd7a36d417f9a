From dd8bd0aea92c1a426219154c174f136448329475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:08 +0000
Subject: [PATCH 1/3] fix: push_empty_slice must not wrap size of slice

`size_of::<T>() * len` wraps in release builds, so too little was reserved
and position returned for space which does not exist.
Panic instead, same as any reservation beyond maximum capacity.
---
 ser_raw/src/storage/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ser_raw/src/storage/mod.rs b/ser_raw/src/storage/mod.rs
index 07e9383..736fddc 100644
--- a/ser_raw/src/storage/mod.rs
+++ b/ser_raw/src/storage/mod.rs
@@ -353,7 +353,9 @@ pub trait Storage: Sized {
 	fn push_empty_slice<T>(&mut self, len: usize) -> usize {
 		self.align_for::<T>();
 
-		let size = mem::size_of::<T>() * len;
+		let size = mem::size_of::<T>()
+			.checked_mul(len)
+			.expect("Cannot grow beyond maximum capacity");
 		self.reserve(size);
 		let pos = self.pos();
 		unsafe { self.set_pos(self.pos() + size) };
-- 
2.43.0


From 963f2de9dede52d3da4ef2339c54190d9ef5c9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:08 +0000
Subject: [PATCH 2/3] fix: push_empty_slice must uphold set_pos's requirements

It called `set_pos()` with a position which is not a multiple of
`VALUE_ALIGNMENT`, if size of the slice is not.
---
 ser_raw/src/storage/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ser_raw/src/storage/mod.rs b/ser_raw/src/storage/mod.rs
index 736fddc..540588e 100644
--- a/ser_raw/src/storage/mod.rs
+++ b/ser_raw/src/storage/mod.rs
@@ -358,9 +358,10 @@ pub trait Storage: Sized {
 			.expect("Cannot grow beyond maximum capacity");
 		self.reserve(size);
 		let pos = self.pos();
-		unsafe { self.set_pos(self.pos() + size) };
-
-		self.align_after::<T>();
+		// `set_pos()` requires new position to be a multiple of `VALUE_ALIGNMENT`.
+		// This cannot exceed capacity, as capacity is a multiple of `VALUE_ALIGNMENT`.
+		let new_pos = align_up_to(pos + size, Self::VALUE_ALIGNMENT);
+		unsafe { self.set_pos(new_pos) };
 		pos
 	}
 
-- 
2.43.0


From e1f7b986238fd011a710ff864d571eaec6be11eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:08 +0000
Subject: [PATCH 3/3] fix: do not lose record of pointers if allocation fails

If pushing the old pointer group to `past` unwinds, its pointers would not
be corrected in `finalize()`, although values they belong to are complete.
---
 ser_raw/src/serializer_traits/complete.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ser_raw/src/serializer_traits/complete.rs b/ser_raw/src/serializer_traits/complete.rs
index 80ba65b..2762ec6 100644
--- a/ser_raw/src/serializer_traits/complete.rs
+++ b/ser_raw/src/serializer_traits/complete.rs
@@ -68,6 +68,8 @@ where
 			if ptrs.current.is_empty() {
 				ptrs.current.set_addr(storage_addr);
 			} else {
+				// Reserve first. If allocation fails, existing pointers must not be lost.
+				ptrs.past.reserve(1);
 				let new_ptr_group = PtrGroup::new(storage_addr);
 				let old_ptr_group = mem::replace(&mut ptrs.current, new_ptr_group);
 				ptrs.past.push(old_ptr_group);
-- 
2.43.0

