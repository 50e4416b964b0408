From d93083930437cd348087a4f0327a8dd432c01de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:21 +0000
Subject: [PATCH 01/23] fix: Vector::create rejected lengths below max_len and
 accepted lengths above it

---
 src/vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vector.rs b/src/vector.rs
index 08fcab1..2db43f9 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -234,7 +234,7 @@ impl<C: Construct> Vector<Owned, C> {
 		max_len: Option<u64>
 	) -> Result<Self, Error<DB::Error>> {
 		if let Some(max_len) = max_len {
-			if (len as u64) < max_len || max_len == 0 {
+			if (len as u64) > max_len || max_len == 0 {
 				return Err(Error::InvalidParameter)
 			}
 		}
-- 
2.43.0


From f04ff4669b5986ecd0e541ee751af2728a929993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:21 +0000
Subject: [PATCH 02/23] fix: InMemoryBackend::insert dropped the children of a
 key already known as an opaque value

---
 src/memory.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/memory.rs b/src/memory.rs
index 5e20b53..93f1427 100644
--- a/src/memory.rs
+++ b/src/memory.rs
@@ -258,7 +258,7 @@ impl<C: Construct> WriteBackend for InMemoryBackend<C> where
 		key: C::Value,
 		value: (C::Value, C::Value)
 	) -> Result<(), Self::Error> {
-		if self.0.contains_key(&key) {
+		if let Some((Some(_), _)) = self.0.get(&key) {
 			return Ok(())
 		}
 
@@ -269,7 +269,7 @@ impl<C: Construct> WriteBackend for InMemoryBackend<C> where
 		self.0.entry(right.clone()).or_insert((None, Some(0))).1
 			.as_mut().map(|v| *v += 1);
 
-		self.0.insert(key, (Some((left, right)), Some(0)));
+		self.0.entry(key).or_insert((None, Some(0))).0 = Some((left, right));
 		Ok(())
 	}
 }
-- 
2.43.0


From 76350b13c7a26b4c485aa000f910f04353a3a1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:21 +0000
Subject: [PATCH 03/23] fix: InMemoryBackend::populate left already counted
 children of a proof collectable

---
 src/memory.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/memory.rs b/src/memory.rs
index 93f1427..2dc6b91 100644
--- a/src/memory.rs
+++ b/src/memory.rs
@@ -214,8 +214,8 @@ impl<C: Construct> InMemoryBackend<C> where
 	pub fn populate(&mut self, proofs: Map<C::Value, (C::Value, C::Value)>) {
 		for (key, (left, right)) in proofs {
 			self.0.insert(key, (Some((left.clone(), right.clone())), None));
-			self.0.entry(left).or_insert((None, None));
-			self.0.entry(right).or_insert((None, None));
+			self.0.entry(left).or_insert((None, None)).1 = None;
+			self.0.entry(right).or_insert((None, None)).1 = None;
 		}
 	}
 }
-- 
2.43.0


From 88ff89487b24d14de80c784503fdff702524090f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:21 +0000
Subject: [PATCH 04/23] fix: compact U256 vectors were decoded as big endian

---
 le/src/elemental_fixed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/le/src/elemental_fixed.rs b/le/src/elemental_fixed.rs
index 4cfc61a..28b2a7c 100644
--- a/le/src/elemental_fixed.rs
+++ b/le/src/elemental_fixed.rs
@@ -161,7 +161,7 @@ impl FromCompactVectorTree for ElementalFixedVec<U256> {
 		let mut ret = Vec::new();
 		for i in 0..len {
 			let value = vector.get(db, i)?;
-			ret.push(U256::from(value.as_ref()));
+			ret.push(U256::from_little_endian(value.as_ref()));
 		}
 
 		Ok(Self(ret))
-- 
2.43.0


From 72e8c1be6257fc249130d2d48d2af75c5c041774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:21 +0000
Subject: [PATCH 05/23] fix: H512::from_tree read 32 of its 64 bytes and
 panicked

---
 le/src/fixed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/le/src/fixed.rs b/le/src/fixed.rs
index b932c2b..bda7c0a 100644
--- a/le/src/fixed.rs
+++ b/le/src/fixed.rs
@@ -107,7 +107,7 @@ impl FromTree for H512 {
 	fn from_tree<DB: ReadBackend>(root: &<DB::Construct as Construct>::Value, db: &mut DB) -> Result<Self, Error<DB::Error>> where
 		DB::Construct: CompatibleConstruct,
 	{
-		let value = ElementalFixedVec::<u8>::from_compact_vector_tree(root, db, 32, None)?;
+		let value = ElementalFixedVec::<u8>::from_compact_vector_tree(root, db, 64, None)?;
 		Ok(Self::from_slice(value.0.as_ref()))
 	}
 }
-- 
2.43.0


From 076e33e06a18fe965dac66af1f46ff462e2555ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:22 +0000
Subject: [PATCH 06/23] fix: PackedVector::pop erased the other values sharing
 the last host chunk

---
 src/packed.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/packed.rs b/src/packed.rs
index 506bd61..f1c7e5b 100644
--- a/src/packed.rs
+++ b/src/packed.rs
@@ -107,17 +107,14 @@ impl<R: RootStatus, C: Construct, T, H: ArrayLength<u8>, V: ArrayLength<u8>> Pac
 				self.tuple.pop(db)?;
 			}
 		} else {
+			self.set(db, index, GenericArray::<u8, V>::default().into())?;
+
 			let last_index = index - 1;
 
 			let (covering_base, covering_ranges) = coverings::<H, V>(last_index);
 			while self.tuple.len() > covering_base + covering_ranges.len() {
 				self.tuple.pop(db)?;
 			}
-
-			let last_value = self.get(db, last_index)?;
-			self.tuple.pop(db)?;
-			self.tuple.push(db, Default::default())?;
-			self.set(db, last_index, last_value)?;
 		}
 
 		self.len -= 1;
-- 
2.43.0


From e7e2a87b9abb9a57093e4f2090bd3f11c329ba9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:22 +0000
Subject: [PATCH 07/23] fix: PackedVector accepted out-of-range indexes inside
 the last host chunk

---
 src/packed.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/packed.rs b/src/packed.rs
index f1c7e5b..af63840 100644
--- a/src/packed.rs
+++ b/src/packed.rs
@@ -51,6 +51,10 @@ impl<R: RootStatus, C: Construct, T, H: ArrayLength<u8>, V: ArrayLength<u8>> Pac
 {
 	/// Get value at index.
 	pub fn get<DB: ReadBackend<Construct=C> + ?Sized>(&self, db: &mut DB, index: usize) -> Result<T, Error<DB::Error>> {
+		if index >= self.len {
+			return Err(Error::AccessOverflowed)
+		}
+
 		let mut ret = GenericArray::<u8, V>::default();
 		let (covering_base, covering_ranges) = coverings::<H, V>(index);
 
@@ -66,6 +70,10 @@ impl<R: RootStatus, C: Construct, T, H: ArrayLength<u8>, V: ArrayLength<u8>> Pac
 
 	/// Set value at index.
 	pub fn set<DB: WriteBackend<Construct=C> + ?Sized>(&mut self, db: &mut DB, index: usize, value: T) -> Result<(), Error<DB::Error>> {
+		if index >= self.len {
+			return Err(Error::AccessOverflowed)
+		}
+
 		let value: GenericArray<u8, V> = value.into();
 		let (covering_base, covering_ranges) = coverings::<H, V>(index);
 
@@ -88,8 +96,8 @@ impl<R: RootStatus, C: Construct, T, H: ArrayLength<u8>, V: ArrayLength<u8>> Pac
 		while self.tuple.len() < covering_base + covering_ranges.len() {
 			self.tuple.push(db, Default::default())?;
 		}
-		self.set(db, index, value)?;
 		self.len += 1;
+		self.set(db, index, value)?;
 		Ok(())
 	}
 
-- 
2.43.0


From 342b0151ca4f7e7331952286a752f685f10bfa19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:22 +0000
Subject: [PATCH 08/23] fix: PackedVector::push ignored the maximum length
 inside the last host chunk

---
 src/packed.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/packed.rs b/src/packed.rs
index af63840..11b1e75 100644
--- a/src/packed.rs
+++ b/src/packed.rs
@@ -91,6 +91,9 @@ impl<R: RootStatus, C: Construct, T, H: ArrayLength<u8>, V: ArrayLength<u8>> Pac
 	/// Push a new value to the tuple.
 	pub fn push<DB: WriteBackend<Construct=C> + ?Sized>(&mut self, db: &mut DB, value: T) -> Result<(), Error<DB::Error>> {
 		let index = self.len;
+		if self.max_len.map(|max_len| index as u64 >= max_len).unwrap_or(false) {
+			return Err(Error::AccessOverflowed)
+		}
 		let (covering_base, covering_ranges) = coverings::<H, V>(index);
 
 		while self.tuple.len() < covering_base + covering_ranges.len() {
-- 
2.43.0


From deb91d1acd49cc3d9cccb037b07ae4bb1b6a0045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:22 +0000
Subject: [PATCH 09/23] fix: PartialIndex resolved list items against the list
 root instead of its item tree

---
 le/src/partial.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/le/src/partial.rs b/le/src/partial.rs
index 870556e..072e5ab 100644
--- a/le/src/partial.rs
+++ b/le/src/partial.rs
@@ -71,9 +71,9 @@ impl PartialIndex {
 			None => Index::root(),
 		};
 
-		let (index, len) = match self.sub {
+		let (parent, index, len) = match self.sub {
 			PartialSubIndex::Raw(raw) => return Ok(parent.sub(raw)),
-			PartialSubIndex::Vector(index, len) => (index, len),
+			PartialSubIndex::Vector(index, len) => (parent, index, len),
 			PartialSubIndex::List(index) => {
 				let len_root = raw.get(db, parent.right())?.ok_or(Error::CorruptedDatabase)?;
 				let len = U256::from_tree(&len_root, db)?;
@@ -81,7 +81,7 @@ impl PartialIndex {
 				if len > U256::from(usize::max_value()) {
 					return Err(Error::CorruptedDatabase)
 				} else {
-					(index, len.as_usize())
+					(parent.left(), index, len.as_usize())
 				}
 			},
 		};
-- 
2.43.0


From 95f5d25f60cee052ffc6658d7bdfdb2cd92eb28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:22 +0000
Subject: [PATCH 10/23] fix: PartialVec::flush lost the values pushed

---
 le/src/partial.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/le/src/partial.rs b/le/src/partial.rs
index 072e5ab..b59b8da 100644
--- a/le/src/partial.rs
+++ b/le/src/partial.rs
@@ -217,10 +217,15 @@ impl<T: Partialable + IntoTree> PartialItem for PartialVec<T> {
 
 		let mut pushed = Vec::default();
 		mem::swap(&mut pushed, &mut self.pushed);
-		let mut list = DanglingList::reconstruct(raw.root(), db, None)?;
-		for value in pushed {
-			let value_root = value.into_tree(db)?;
-			list.push(db, value_root)?;
+		if !pushed.is_empty() {
+			let index = self.index.resolve(raw, db)?;
+			let list_root = raw.get(db, index)?.ok_or(Error::CorruptedDatabase)?;
+			let mut list = DanglingList::reconstruct(list_root, db, None)?;
+			for value in pushed {
+				let value_root = value.into_tree(db)?;
+				list.push(db, value_root)?;
+			}
+			raw.set(db, index, list.root())?;
 		}
 
 		Ok(())
-- 
2.43.0


From 04e9f2608e5748644957a2e0a931854e33ba65ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:22 +0000
Subject: [PATCH 11/23] fix: PartialIndex resolved out-of-range items to
 unrelated nodes

---
 le/src/partial.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/le/src/partial.rs b/le/src/partial.rs
index b59b8da..f72c9a2 100644
--- a/le/src/partial.rs
+++ b/le/src/partial.rs
@@ -86,6 +86,10 @@ impl PartialIndex {
 			},
 		};
 
+		if index >= len {
+			return Err(Error::AccessOverflowed)
+		}
+
 		let mut max_len = 1;
 		let mut depth = 0;
 		while max_len < len {
-- 
2.43.0


From e59aa8a1dfd75f9b27eff435c7a5fa2db3c1d01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:22 +0000
Subject: [PATCH 12/23] fix: lists longer than their maximum length were
 decoded as garbage

---
 le/src/elemental_variable.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/le/src/elemental_variable.rs b/le/src/elemental_variable.rs
index 857274e..072e676 100644
--- a/le/src/elemental_variable.rs
+++ b/le/src/elemental_variable.rs
@@ -117,6 +117,10 @@ fn from_list_tree<T, F, DB: ReadBackend>(
 {
 	let (vector_root, len) = decode_with_length::<<DB::Construct as Construct>::Value, _>(root, db)?;
 
+	if max_len.map(|max_len| len as u64 > max_len).unwrap_or(false) {
+		return Err(Error::CorruptedDatabase)
+	}
+
 	let vector = f(
 		&vector_root, db, len, max_len
 	)?;
-- 
2.43.0


From 1a964b3c0d7226c9e2b09346bfed87092bb623eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:22 +0000
Subject: [PATCH 13/23] fix: vector_tree silently dropped values beyond the
 maximum length

---
 src/utils.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utils.rs b/src/utils.rs
index 575efd5..cbde002 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -17,6 +17,10 @@ pub fn required_depth(len: u64) -> usize {
 
 /// Serialize a vector at given depth.
 pub fn vector_tree<DB: WriteBackend>(values: &[<DB::Construct as Construct>::Value], db: &mut DB, max_len: Option<u64>) -> Result<<DB::Construct as Construct>::Value, Error<DB::Error>> {
+	if max_len.map(|max_len| values.len() as u64 > max_len).unwrap_or(false) {
+		return Err(Error::InvalidParameter)
+	}
+
 	let total_depth = required_depth(max_len.unwrap_or(values.len() as u64));
 
 	let mut current = values.iter().cloned().collect::<VecDeque<_>>();
-- 
2.43.0


From 676859f6cc821af03c3c99a23cafcbc84cc83129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:22 +0000
Subject: [PATCH 14/23] fix: List::reconstruct accepted a length above the
 maximum length

---
 src/list.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/list.rs b/src/list.rs
index abcee0f..b6a75f7 100644
--- a/src/list.rs
+++ b/src/list.rs
@@ -43,6 +43,9 @@ impl<R: RootStatus, C: Construct> List<R, C> where
 	/// Reconstruct the vector from a single hash value.
 	pub fn reconstruct<DB: WriteBackend<Construct=C> + ?Sized>(root: C::Value, db: &mut DB, max_len: Option<u64>) -> Result<Self, Error<DB::Error>> {
 		Ok(Self(LengthMixed::reconstruct(root, db, |tuple_raw, _db, len| {
+			if max_len.map(|max_len| len as u64 > max_len).unwrap_or(false) {
+				return Err(Error::CorruptedDatabase)
+			}
 			Ok(Vector::<Dangling, C>::from_raw(tuple_raw, len, max_len))
 		})?))
 	}
-- 
2.43.0


From e1f6c0c41bd7ace69eb977da096c942460443fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:30 +0000
Subject: [PATCH 15/23] fix: decoding a list whose stored length no index can
 address did not terminate

---
 le/src/partial.rs | 2 +-
 le/src/utils.rs   | 2 +-
 src/length.rs     | 3 +++
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/le/src/partial.rs b/le/src/partial.rs
index f72c9a2..4eab983 100644
--- a/le/src/partial.rs
+++ b/le/src/partial.rs
@@ -78,7 +78,7 @@ impl PartialIndex {
 				let len_root = raw.get(db, parent.right())?.ok_or(Error::CorruptedDatabase)?;
 				let len = U256::from_tree(&len_root, db)?;
 
-				if len > U256::from(usize::max_value()) {
+				if len > U256::from(usize::max_value() / 2 + 1) {
 					return Err(Error::CorruptedDatabase)
 				} else {
 					(parent.left(), index, len.as_usize())
diff --git a/le/src/utils.rs b/le/src/utils.rs
index cf9efa0..d8f1e73 100644
--- a/le/src/utils.rs
+++ b/le/src/utils.rs
@@ -49,7 +49,7 @@ pub fn decode_with_length<T, DB: ReadBackend>(root: &<DB::Construct as Construct
 {
 	let (value, len) = <(T, U256)>::from_tree(root, db)?;
 
-	if len > U256::from(usize::max_value()) {
+	if len > U256::from(usize::max_value() / 2 + 1) {
 		Err(Error::CorruptedDatabase)
 	} else {
 		Ok((value, len.as_usize()))
diff --git a/src/length.rs b/src/length.rs
index 723a380..464c42c 100644
--- a/src/length.rs
+++ b/src/length.rs
@@ -25,6 +25,9 @@ impl<R: RootStatus, C: Construct, S> LengthMixed<R, C, S> where
 		let len: usize = raw.get(db, LEN_INDEX)?
 			.ok_or(Error::CorruptedDatabase)?
 			.into();
+		if len > usize::max_value() / 2 + 1 {
+			return Err(Error::CorruptedDatabase)
+		}
 		let inner_raw = raw.subtree(db, ITEM_ROOT_INDEX)?;
 
 		let inner = f(inner_raw, db, len)?;
-- 
2.43.0


From 2bcddadbb825537ff4e1fb1db4375162ae217c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:03 +0000
Subject: [PATCH 16/23] fix: host_max_len overflowed on lengths whose byte
 length does not fit 64 bits

---
 src/utils.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index cbde002..c364d91 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -52,11 +52,12 @@ pub fn host_max_len<Host: ArrayLength<u8>, Value: ArrayLength<u8>>(value_len: u6
 	let host_array_len = Host::to_u64();
 	let value_array_len = Value::to_u64();
 
-	let bytes = value_array_len * value_len;
+	let full_hosts = value_len / host_array_len * value_array_len;
+	let bytes = value_len % host_array_len * value_array_len;
 	if bytes % host_array_len == 0 {
-		bytes / host_array_len
+		full_hosts + bytes / host_array_len
 	} else {
-		bytes / host_array_len + 1
+		full_hosts + bytes / host_array_len + 1
 	}
 }
 
-- 
2.43.0


From fca2a040c87f361a99ff633d40fd04c8392c9f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:47 +0000
Subject: [PATCH 17/23] fix: packed vectors read other values where the byte
 offset overflows

---
 src/packed.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/packed.rs b/src/packed.rs
index 11b1e75..a8c30b3 100644
--- a/src/packed.rs
+++ b/src/packed.rs
@@ -14,9 +14,9 @@ fn coverings<Host: ArrayLength<u8>, Value: ArrayLength<u8>>(value_index: usize)
 	let host_len = Host::to_usize();
 	let value_len = Value::to_usize();
 
-	let bytes = value_len * value_index;
-	let host_index = bytes / host_len;
-	let offset = bytes - host_len * host_index;
+	let bytes = value_index % host_len * value_len;
+	let host_index = value_index / host_len * value_len + bytes / host_len;
+	let offset = bytes % host_len;
 
 	let mut ranges = Vec::new();
 	ranges.push(offset..cmp::min(offset + value_len, host_len));
-- 
2.43.0


From 6989955686807c19cfe15ad0e705f574d80bdf2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:49 +0000
Subject: [PATCH 18/23] fix: packed vectors could be created longer than their
 maximum

---
 src/packed.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/packed.rs b/src/packed.rs
index a8c30b3..4473e51 100644
--- a/src/packed.rs
+++ b/src/packed.rs
@@ -203,6 +203,9 @@ impl<C: Construct, T, H: ArrayLength<u8>, V: ArrayLength<u8>> PackedVector<Owned
 {
 	/// Create a new tuple.
 	pub fn create<DB: WriteBackend<Construct=C> + ?Sized>(db: &mut DB, value_len: usize, value_max_len: Option<u64>) -> Result<Self, Error<DB::Error>> {
+		if value_max_len.map(|l| value_len as u64 > l).unwrap_or(false) {
+			return Err(Error::InvalidParameter)
+		}
 		let host_max_len = value_max_len.map(|l| host_max_len::<H, V>(l));
 		let host_len = host_len::<H, V>(value_len);
 
-- 
2.43.0


From 7c2b2a7dab2f613475a74406c246f4f221897837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:32 +0000
Subject: [PATCH 19/23] fix: refuse packed vectors longer than their maximum
 within the last chunk

---
 le/src/elemental_fixed.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/le/src/elemental_fixed.rs b/le/src/elemental_fixed.rs
index 28b2a7c..66afb65 100644
--- a/le/src/elemental_fixed.rs
+++ b/le/src/elemental_fixed.rs
@@ -73,6 +73,12 @@ macro_rules! impl_builtin_fixed_uint_vector {
 			) -> Result<<DB::Construct as Construct>::Value, Error<DB::Error>> where
 				DB::Construct: CompatibleConstruct,
 			{
+				if let Some(max) = max_len {
+					if self.0.len() as u64 > max {
+						return Err(Error::InvalidParameter)
+					}
+				}
+
 				let mut chunks: Vec<Vec<u8>> = Vec::new();
 
 				for value in self.0 {
@@ -176,6 +182,12 @@ impl<'a> IntoCompactVectorTree for ElementalFixedVecRef<'a, bool> {
 	) -> Result<<DB::Construct as Construct>::Value, Error<DB::Error>> where
 		DB::Construct: CompatibleConstruct,
 	{
+		if let Some(max) = max_len {
+			if self.0.len() as u64 > max {
+				return Err(Error::InvalidParameter)
+			}
+		}
+
 		let mut bytes = Vec::new();
 		bytes.resize((self.0.len() + 7) / 8, 0u8);
 
-- 
2.43.0


From 6ae8841ffb9730aa61c6bd6104ec7adf1cf03c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:58 +0000
Subject: [PATCH 20/23] fix: push on a vector of length 2^63 overflowed instead
 of being refused

---
 src/vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vector.rs b/src/vector.rs
index 2db43f9..f9aa349 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -114,7 +114,7 @@ impl<R: RootStatus, C: Construct> Vector<R, C> {
 	) -> Result<(), Error<DB::Error>> {
 		let old_len = self.len();
 		if (old_len as u64) == self.current_max_len() {
-			if self.max_len.is_some() {
+			if self.max_len.is_some() || old_len > usize::max_value() / 2 {
 				return Err(Error::AccessOverflowed)
 			} else {
 				self.extend(db)?;
-- 
2.43.0


From f166f55a7bac006202eecbadee9898ceead8a732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:58 +0000
Subject: [PATCH 21/23] fix: push on the longest packed vectors overflowed
 instead of being refused

---
 src/packed.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/packed.rs b/src/packed.rs
index 4473e51..4e9c104 100644
--- a/src/packed.rs
+++ b/src/packed.rs
@@ -91,10 +91,13 @@ impl<R: RootStatus, C: Construct, T, H: ArrayLength<u8>, V: ArrayLength<u8>> Pac
 	/// Push a new value to the tuple.
 	pub fn push<DB: WriteBackend<Construct=C> + ?Sized>(&mut self, db: &mut DB, value: T) -> Result<(), Error<DB::Error>> {
 		let index = self.len;
-		if self.max_len.map(|max_len| index as u64 >= max_len).unwrap_or(false) {
+		if self.max_len.map(|max_len| index as u64 >= max_len).unwrap_or(index == usize::max_value()) {
 			return Err(Error::AccessOverflowed)
 		}
 		let (covering_base, covering_ranges) = coverings::<H, V>(index);
+		if covering_base + covering_ranges.len() > usize::max_value() / 2 + 1 {
+			return Err(Error::AccessOverflowed)
+		}
 
 		while self.tuple.len() < covering_base + covering_ranges.len() {
 			self.tuple.push(db, Default::default())?;
-- 
2.43.0


From 4f3c54a3434d82a208988435ded6e2dd9169e444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:58 +0000
Subject: [PATCH 22/23] fix: partial indices deeper than an index can address
 resolved to other nodes

---
 le/src/partial.rs | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/le/src/partial.rs b/le/src/partial.rs
index 4eab983..46d80f8 100644
--- a/le/src/partial.rs
+++ b/le/src/partial.rs
@@ -1,4 +1,4 @@
-use bm::{Index, Error, ReadBackend, RootStatus, Raw, DanglingList, Tree, WriteBackend};
+use bm::{Index, IndexRoute, Error, ReadBackend, RootStatus, Raw, DanglingList, Tree, WriteBackend};
 use primitive_types::{U256, H256};
 use core::mem;
 #[cfg(not(feature = "std"))]
@@ -25,6 +25,22 @@ pub enum PartialSubIndex {
 	Vector(usize, usize),
 }
 
+/// Get the index at `sub` below `parent`, unless an index cannot address it.
+fn sub_index<E>(parent: Index, sub: Index) -> Result<Index, Error<E>> {
+	if depth_of(parent) + depth_of(sub) < mem::size_of::<usize>() * 8 {
+		Ok(parent.sub(sub))
+	} else {
+		Err(Error::AccessOverflowed)
+	}
+}
+
+fn depth_of(index: Index) -> usize {
+	match index.route() {
+		IndexRoute::Root => 0,
+		IndexRoute::Select(selections) => selections.len(),
+	}
+}
+
 impl PartialIndex {
 	/// Partial index from root.
 	pub fn root() -> Self {
@@ -72,21 +88,22 @@ impl PartialIndex {
 		};
 
 		let (parent, index, len) = match self.sub {
-			PartialSubIndex::Raw(raw) => return Ok(parent.sub(raw)),
+			PartialSubIndex::Raw(raw) => return sub_index(parent, raw),
 			PartialSubIndex::Vector(index, len) => (parent, index, len),
 			PartialSubIndex::List(index) => {
-				let len_root = raw.get(db, parent.right())?.ok_or(Error::CorruptedDatabase)?;
+				let len_index = sub_index(parent, Index::root().right())?;
+				let len_root = raw.get(db, len_index)?.ok_or(Error::CorruptedDatabase)?;
 				let len = U256::from_tree(&len_root, db)?;
 
 				if len > U256::from(usize::max_value() / 2 + 1) {
 					return Err(Error::CorruptedDatabase)
 				} else {
-					(parent.left(), index, len.as_usize())
+					(sub_index(parent, Index::root().left())?, index, len.as_usize())
 				}
 			},
 		};
 
-		if index >= len {
+		if index >= len || len > usize::max_value() / 2 + 1 {
 			return Err(Error::AccessOverflowed)
 		}
 
@@ -100,7 +117,7 @@ impl PartialIndex {
 		  result is greater or equal to 1;
 		  Index::from_one always return Some; qed");
 
-		Ok(parent.sub(sub))
+		sub_index(parent, sub)
 	}
 }
 
-- 
2.43.0


From e793e589f4d48b27961aa8d2727461730218f408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:26 +0000
Subject: [PATCH 23/23] fix: derived FromTree of a struct or variant without
 fields rejects a non-empty payload

---
 le/derive/src/lib.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/le/derive/src/lib.rs b/le/derive/src/lib.rs
index c2af540..ee0ed86 100644
--- a/le/derive/src/lib.rs
+++ b/le/derive/src/lib.rs
@@ -166,11 +166,25 @@ pub fn from_tree_derive(input: TokenStream) -> TokenStream {
 		(where_fields, fields)
 	};
 
+	// Without fields there is no payload, so the root must be the empty one.
+	let build_empty_check = |fields_count: usize, root| {
+		if fields_count == 0 {
+			quote! {
+				if #root != &Default::default() {
+					return Err(bm_le::Error::CorruptedDatabase)
+				}
+			}
+		} else {
+			quote! { }
+		}
+	};
+
 	let (where_fields, inner) = match input.data {
 		Data::Struct(ref data) => {
 			let (where_fields, fields) = build_fields(&data.fields);
 
 			let fields_count = fields.iter().count();
+			let empty_check = build_empty_check(fields_count, quote! { root });
 			let fields = fields.into_iter().map(|f| {
 				let name = f.0;
 				let value = f.1;
@@ -182,6 +196,8 @@ pub fn from_tree_derive(input: TokenStream) -> TokenStream {
 
 			let inner = quote! {
 				{
+					#empty_check
+
 					use bm_le::Leak;
 
 					let vector = bm_le::DanglingVector::<DB::Construct>::from_leaked(
@@ -210,6 +226,7 @@ pub fn from_tree_derive(input: TokenStream) -> TokenStream {
 
 					where_fields.append(&mut variant_where_fields);
 					let fields_count = variant_fields.iter().count();
+					let empty_check = build_empty_check(fields_count, quote! { vector_root });
 
 					match variant.fields {
 						Fields::Named(_) => {
@@ -224,6 +241,8 @@ pub fn from_tree_derive(input: TokenStream) -> TokenStream {
 
 							quote! {
 								#i => {
+									#empty_check
+
 									use bm_le::Leak;
 
 									let vector = bm_le::DanglingVector::<DB::Construct>::from_leaked(
@@ -247,6 +266,8 @@ pub fn from_tree_derive(input: TokenStream) -> TokenStream {
 
 							quote! {
 								#i => {
+									#empty_check
+
 									use bm_le::Leak;
 
 									let vector = bm_le::DanglingVector::<DB::Construct>::from_leaked(
-- 
2.43.0

