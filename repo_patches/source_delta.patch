From 7b1f710fbc5716e8982290dbd1fccf5493719168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:57 +0000
Subject: [PATCH 01/41] fix: clone_into cloned the reference instead of the
 value

---
 facet-core/src/impls_alloc/btreemap.rs | 29 ++++++++++++++++++++++----
 facet-core/src/impls_alloc/vec.rs      | 20 ++++++++++++++++--
 facet-core/src/impls_core/slice.rs     |  2 +-
 facet-core/src/spez/mod.rs             |  5 +++--
 4 files changed, 47 insertions(+), 9 deletions(-)

diff --git a/facet-core/src/impls_alloc/btreemap.rs b/facet-core/src/impls_alloc/btreemap.rs
index 7e3a2b4..1148219 100644
--- a/facet-core/src/impls_alloc/btreemap.rs
+++ b/facet-core/src/impls_alloc/btreemap.rs
@@ -1,4 +1,4 @@
-use core::{alloc::Layout, write};
+use core::{alloc::Layout, mem::MaybeUninit, write};
 
 use alloc::{
     boxed::Box,
@@ -7,7 +7,7 @@ use alloc::{
 
 use crate::{
     ConstTypeId, Def, Facet, MapDef, MapIterVTable, MapVTable, MarkerTraits, PtrConst, PtrMut,
-    Shape, ValueVTable,
+    PtrUninit, Shape, ValueVTable,
 };
 
 struct BTreeMapIterator<'mem, K> {
@@ -80,8 +80,29 @@ where
 
                     builder =
                         builder.default_in_place(|target| unsafe { target.put(Self::default()) });
-                    builder = builder
-                        .clone_into(|src, dst| unsafe { dst.put(src.get::<BTreeMap<K, V>>()) });
+                    if K::SHAPE.vtable.clone_into.is_some() && V::SHAPE.vtable.clone_into.is_some()
+                    {
+                        builder = builder.clone_into(|src, dst| unsafe {
+                            let k_clone_into = K::SHAPE.vtable.clone_into.unwrap_unchecked();
+                            let v_clone_into = V::SHAPE.vtable.clone_into.unwrap_unchecked();
+                            let mut map = Self::default();
+                            for (k, v) in src.get::<BTreeMap<K, V>>() {
+                                let mut key = MaybeUninit::<K>::uninit();
+                                k_clone_into(
+                                    PtrConst::new(k as *const K),
+                                    PtrUninit::from_maybe_uninit(&mut key),
+                                );
+                                let key = key.assume_init();
+                                let mut val = MaybeUninit::<V>::uninit();
+                                v_clone_into(
+                                    PtrConst::new(v as *const V),
+                                    PtrUninit::from_maybe_uninit(&mut val),
+                                );
+                                map.insert(key, val.assume_init());
+                            }
+                            dst.put(map)
+                        });
+                    }
 
                     if V::SHAPE.vtable.eq.is_some() {
                         builder = builder.eq(|a, b| unsafe {
diff --git a/facet-core/src/impls_alloc/vec.rs b/facet-core/src/impls_alloc/vec.rs
index c5230bc..b04d0ff 100644
--- a/facet-core/src/impls_alloc/vec.rs
+++ b/facet-core/src/impls_alloc/vec.rs
@@ -30,8 +30,24 @@ where
                             }
                         })
                         .drop_in_place(|value| unsafe { value.drop_in_place::<Vec<T>>() })
-                        .default_in_place(|target| unsafe { target.put(Self::default()) })
-                        .clone_into(|src, dst| unsafe { dst.put(src.get::<Vec<T>>()) });
+                        .default_in_place(|target| unsafe { target.put(Self::default()) });
+
+                    if T::SHAPE.vtable.clone_into.is_some() {
+                        builder = builder.clone_into(|src, dst| unsafe {
+                            let t_clone_into = T::SHAPE.vtable.clone_into.unwrap_unchecked();
+                            let src = src.get::<Vec<T>>();
+                            let mut vec = Vec::<T>::with_capacity(src.len());
+                            for item in src {
+                                let spare = &mut vec.spare_capacity_mut()[0];
+                                t_clone_into(
+                                    PtrConst::new(item),
+                                    PtrUninit::from_maybe_uninit(spare),
+                                );
+                                vec.set_len(vec.len() + 1);
+                            }
+                            dst.put(vec)
+                        });
+                    }
 
                     if T::SHAPE.vtable.debug.is_some() {
                         builder = builder.debug(|value, f| {
diff --git a/facet-core/src/impls_core/slice.rs b/facet-core/src/impls_core/slice.rs
index cab0c32..1b31b4d 100644
--- a/facet-core/src/impls_core/slice.rs
+++ b/facet-core/src/impls_core/slice.rs
@@ -57,7 +57,7 @@ where
                         .clone_into(|src, dst| unsafe {
                             // This works because we're cloning a shared reference (&[T]), not the actual slice data.
                             // We're just copying the fat pointer (ptr + length) that makes up the slice reference.
-                            dst.put(src.get::<&[T]>())
+                            dst.put(*src.get::<&[T]>())
                         });
 
                     if T::SHAPE.vtable.debug.is_some() {
diff --git a/facet-core/src/spez/mod.rs b/facet-core/src/spez/mod.rs
index 0cabf70..d6551df 100644
--- a/facet-core/src/spez/mod.rs
+++ b/facet-core/src/spez/mod.rs
@@ -160,9 +160,10 @@ pub trait SpezCloneIntoYes {
     /// has sufficient space allocated for type `T`.
     unsafe fn spez_clone_into<'mem>(&self, target: PtrUninit<'mem>) -> PtrMut<'mem>;
 }
-impl<T: Clone> SpezCloneIntoYes for &Spez<T> {
+impl<T: Clone> SpezCloneIntoYes for &Spez<&T> {
     unsafe fn spez_clone_into<'mem>(&self, target: PtrUninit<'mem>) -> PtrMut<'mem> {
-        unsafe { target.put(self.0.clone()) }
+        // careful to clone the value, not the reference to it
+        unsafe { target.put(T::clone(self.0)) }
     }
 }
 
-- 
2.43.0


From b87a28fdecc7aa5f914b46d3c5ec3a7911da7aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:57 +0000
Subject: [PATCH 02/41] fix: HashMap shape assumed RandomState, and its
 clone_into wrote a reference

---
 facet-core/src/impls_std/hashmap.rs | 66 +++++++++++++++++++++--------
 1 file changed, 48 insertions(+), 18 deletions(-)

diff --git a/facet-core/src/impls_std/hashmap.rs b/facet-core/src/impls_std/hashmap.rs
index 9b23a66..31dabe4 100644
--- a/facet-core/src/impls_std/hashmap.rs
+++ b/facet-core/src/impls_std/hashmap.rs
@@ -1,9 +1,13 @@
 use alloc::collections::VecDeque;
-use core::{alloc::Layout, hash::Hash};
+use core::{
+    alloc::Layout,
+    hash::{BuildHasher, Hash},
+    mem::MaybeUninit,
+};
 use std::collections::HashMap;
 use std::hash::RandomState;
 
-use crate::ptr::{PtrConst, PtrMut};
+use crate::ptr::{PtrConst, PtrMut, PtrUninit};
 
 use crate::{
     ConstTypeId, Def, Facet, MapDef, MapIterVTable, MapVTable, MarkerTraits, ScalarAffinity,
@@ -19,12 +23,12 @@ unsafe impl<K, V, S> Facet for HashMap<K, V, S>
 where
     K: Facet + core::cmp::Eq + core::hash::Hash + 'static,
     V: Facet + 'static,
-    S: Facet + Default,
+    S: Facet + Default + BuildHasher,
 {
     const SHAPE: &'static Shape = &const {
         Shape::builder()
             .id(ConstTypeId::of::<HashMap<K, V, S>>())
-            .layout(Layout::new::<HashMap<K, V>>())
+            .layout(Layout::new::<HashMap<K, V, S>>())
             .type_params(&[
                 TypeParam {
                     name: "K",
@@ -62,11 +66,13 @@ where
                                 write!(f, "HashMap<⋯>")
                             }
                         })
-                        .drop_in_place(|value| unsafe { value.drop_in_place::<HashMap<K, V>>() });
+                        .drop_in_place(|value| unsafe {
+                            value.drop_in_place::<HashMap<K, V, S>>()
+                        });
 
                     if K::SHAPE.vtable.debug.is_some() && V::SHAPE.vtable.debug.is_some() {
                         builder = builder.debug(|value, f| unsafe {
-                            let value = value.get::<HashMap<K, V>>();
+                            let value = value.get::<HashMap<K, V, S>>();
                             let k_debug = K::SHAPE.vtable.debug.unwrap_unchecked();
                             let v_debug = V::SHAPE.vtable.debug.unwrap_unchecked();
                             write!(f, "{{")?;
@@ -85,13 +91,34 @@ where
                     builder =
                         builder.default_in_place(|target| unsafe { target.put(Self::default()) });
 
-                    builder = builder
-                        .clone_into(|src, dst| unsafe { dst.put(src.get::<HashMap<K, V>>()) });
+                    if K::SHAPE.vtable.clone_into.is_some() && V::SHAPE.vtable.clone_into.is_some()
+                    {
+                        builder = builder.clone_into(|src, dst| unsafe {
+                            let k_clone_into = K::SHAPE.vtable.clone_into.unwrap_unchecked();
+                            let v_clone_into = V::SHAPE.vtable.clone_into.unwrap_unchecked();
+                            let mut map = Self::default();
+                            for (k, v) in src.get::<HashMap<K, V, S>>() {
+                                let mut key = MaybeUninit::<K>::uninit();
+                                k_clone_into(
+                                    PtrConst::new(k as *const K),
+                                    PtrUninit::from_maybe_uninit(&mut key),
+                                );
+                                let key = key.assume_init();
+                                let mut val = MaybeUninit::<V>::uninit();
+                                v_clone_into(
+                                    PtrConst::new(v as *const V),
+                                    PtrUninit::from_maybe_uninit(&mut val),
+                                );
+                                map.insert(key, val.assume_init());
+                            }
+                            dst.put(map)
+                        });
+                    }
 
                     if V::SHAPE.vtable.eq.is_some() {
                         builder = builder.eq(|a, b| unsafe {
-                            let a = a.get::<HashMap<K, V>>();
-                            let b = b.get::<HashMap<K, V>>();
+                            let a = a.get::<HashMap<K, V, S>>();
+                            let b = b.get::<HashMap<K, V, S>>();
                             let v_eq = V::SHAPE.vtable.eq.unwrap_unchecked();
                             a.len() == b.len()
                                 && a.iter().all(|(key_a, val_a)| {
@@ -108,7 +135,7 @@ where
                     if V::SHAPE.vtable.hash.is_some() {
                         builder = builder.hash(|value, hasher_this, hasher_write_fn| unsafe {
                             use crate::HasherProxy;
-                            let map = value.get::<HashMap<K, V>>();
+                            let map = value.get::<HashMap<K, V, S>>();
                             let v_hash = V::SHAPE.vtable.hash.unwrap_unchecked();
                             let mut hasher = HasherProxy::new(hasher_this, hasher_write_fn);
                             map.len().hash(&mut hasher);
@@ -138,25 +165,25 @@ where
                                         .put(Self::with_capacity_and_hasher(capacity, S::default()))
                                 })
                                 .insert(|ptr, key, value| unsafe {
-                                    let map = ptr.as_mut::<HashMap<K, V>>();
+                                    let map = ptr.as_mut::<HashMap<K, V, S>>();
                                     let key = key.read::<K>();
                                     let value = value.read::<V>();
                                     map.insert(key, value);
                                 })
                                 .len(|ptr| unsafe {
-                                    let map = ptr.get::<HashMap<K, V>>();
+                                    let map = ptr.get::<HashMap<K, V, S>>();
                                     map.len()
                                 })
                                 .contains_key(|ptr, key| unsafe {
-                                    let map = ptr.get::<HashMap<K, V>>();
+                                    let map = ptr.get::<HashMap<K, V, S>>();
                                     map.contains_key(key.get())
                                 })
                                 .get_value_ptr(|ptr, key| unsafe {
-                                    let map = ptr.get::<HashMap<K, V>>();
+                                    let map = ptr.get::<HashMap<K, V, S>>();
                                     map.get(key.get()).map(|v| PtrConst::new(v as *const _))
                                 })
                                 .iter(|ptr| unsafe {
-                                    let map = ptr.get::<HashMap<K, V>>();
+                                    let map = ptr.get::<HashMap<K, V, S>>();
                                     let keys: VecDeque<&K> = map.keys().collect();
                                     let iter_state = Box::new(HashMapIterator { map: ptr, keys });
                                     PtrMut::new(Box::into_raw(iter_state) as *mut u8)
@@ -165,7 +192,7 @@ where
                                     MapIterVTable::builder()
                                         .next(|iter_ptr| unsafe {
                                             let state = iter_ptr.as_mut::<HashMapIterator<'_, K>>();
-                                            let map = state.map.get::<HashMap<K, V>>();
+                                            let map = state.map.get::<HashMap<K, V, S>>();
                                             while let Some(key) = state.keys.pop_front() {
                                                 if let Some(value) = map.get(key) {
                                                     return Some((
@@ -204,7 +231,10 @@ unsafe impl Facet for RandomState {
                     .affinity(ScalarAffinity::opaque().build())
                     .build(),
             ))
-            .vtable(value_vtable!((), |f, _opts| write!(f, "RandomState")))
+            .vtable(value_vtable!(RandomState, |f, _opts| write!(
+                f,
+                "RandomState"
+            )))
             .build()
     };
 }
-- 
2.43.0


From 34e340ba634bb51b7402690ed3c7a8c55bd515ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:57 +0000
Subject: [PATCH 03/41] fix: PathBuf, Path, Utf8PathBuf, Utf8Path and
 ConstTypeId used the vtable of ()

---
 facet-core/src/impls_camino.rs      |  7 +++++--
 facet-core/src/impls_core/scalar.rs |  5 ++++-
 facet-core/src/impls_std/path.rs    | 10 ++++++++--
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/facet-core/src/impls_camino.rs b/facet-core/src/impls_camino.rs
index c5cc1b8..39c4421 100644
--- a/facet-core/src/impls_camino.rs
+++ b/facet-core/src/impls_camino.rs
@@ -14,7 +14,10 @@ unsafe impl Facet for Utf8PathBuf {
                     .affinity(ScalarAffinity::path().build())
                     .build(),
             ))
-            .vtable(value_vtable!((), |f, _opts| write!(f, "Utf8PathBuf")))
+            .vtable(value_vtable!(Utf8PathBuf, |f, _opts| write!(
+                f,
+                "Utf8PathBuf"
+            )))
             .build()
     };
 }
@@ -29,7 +32,7 @@ unsafe impl Facet for &Utf8Path {
                     .affinity(ScalarAffinity::path().build())
                     .build(),
             ))
-            .vtable(value_vtable!((), |f, _opts| write!(f, "Utf8Path")))
+            .vtable(value_vtable!(&Utf8Path, |f, _opts| write!(f, "Utf8Path")))
             .build()
     };
 }
diff --git a/facet-core/src/impls_core/scalar.rs b/facet-core/src/impls_core/scalar.rs
index 7270d78..8ac1c2e 100644
--- a/facet-core/src/impls_core/scalar.rs
+++ b/facet-core/src/impls_core/scalar.rs
@@ -14,7 +14,10 @@ unsafe impl Facet for ConstTypeId {
                     .affinity(ScalarAffinity::opaque().build())
                     .build(),
             ))
-            .vtable(value_vtable!((), |f, _opts| write!(f, "ConstTypeId")))
+            .vtable(value_vtable!(ConstTypeId, |f, _opts| write!(
+                f,
+                "ConstTypeId"
+            )))
             .build()
     };
 }
diff --git a/facet-core/src/impls_std/path.rs b/facet-core/src/impls_std/path.rs
index 5cd04d6..1232a95 100644
--- a/facet-core/src/impls_std/path.rs
+++ b/facet-core/src/impls_std/path.rs
@@ -12,7 +12,10 @@ unsafe impl Facet for std::path::PathBuf {
                     .affinity(ScalarAffinity::path().build())
                     .build(),
             ))
-            .vtable(value_vtable!((), |f, _opts| write!(f, "PathBuf")))
+            .vtable(value_vtable!(std::path::PathBuf, |f, _opts| write!(
+                f,
+                "PathBuf"
+            )))
             .build()
     };
 }
@@ -27,7 +30,10 @@ unsafe impl Facet for &std::path::Path {
                     .affinity(ScalarAffinity::path().build())
                     .build(),
             ))
-            .vtable(value_vtable!((), |f, _opts| write!(f, "Path")))
+            .vtable(value_vtable!(&std::path::Path, |f, _opts| write!(
+                f,
+                "Path"
+            )))
             .build()
     };
 }
-- 
2.43.0


From 9eb9842aa7d03fe247a38b476c96a6f3df2409d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:57 +0000
Subject: [PATCH 04/41] fix: Weak<T> used the vtable of Arc<T>

---
 facet-core/src/impls_alloc/smartptr.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/facet-core/src/impls_alloc/smartptr.rs b/facet-core/src/impls_alloc/smartptr.rs
index 2b34ad6..3d45cd0 100644
--- a/facet-core/src/impls_alloc/smartptr.rs
+++ b/facet-core/src/impls_alloc/smartptr.rs
@@ -74,9 +74,9 @@ unsafe impl<T: Facet> Facet for alloc::sync::Weak<T> {
                     )
                     .build(),
             ))
-            .vtable(value_vtable!(alloc::sync::Arc<T>, |f, _opts| write!(
+            .vtable(value_vtable!(alloc::sync::Weak<T>, |f, _opts| write!(
                 f,
-                "Arc"
+                "Weak"
             )))
             .build()
     };
-- 
2.43.0


From cfa54dfeb81df0b081f09d9d10da5aebb2fcccd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:57 +0000
Subject: [PATCH 05/41] fix: array get_item_ptr ignored the index

---
 facet-core/src/impls_core/array.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/facet-core/src/impls_core/array.rs b/facet-core/src/impls_core/array.rs
index 71f00ce..6413e1d 100644
--- a/facet-core/src/impls_core/array.rs
+++ b/facet-core/src/impls_core/array.rs
@@ -170,7 +170,7 @@ where
                                             "Index out of bounds: the len is {L} but the index is {index}"
                                         );
                                     }
-                                    PtrConst::new(ptr.as_ptr::<[T; L]>())
+                                    PtrConst::new(ptr.as_ptr::<T>().add(index))
                                 })
                                 .build()
                         },
-- 
2.43.0


From 36fca01be2a476463aeffb1c48d64297aa00ba93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:57 +0000
Subject: [PATCH 06/41] fix: tuples were never dropped, and their Debug
 depended on Eq

---
 facet-core/src/impls_core/tuple.rs | 151 ++++++++++++++++++++++++++---
 facet-dev/src/tuples.rs            |  33 +++++--
 2 files changed, 164 insertions(+), 20 deletions(-)

diff --git a/facet-core/src/impls_core/tuple.rs b/facet-core/src/impls_core/tuple.rs
index 2668fab..ad13460 100644
--- a/facet-core/src/impls_core/tuple.rs
+++ b/facet-core/src/impls_core/tuple.rs
@@ -62,9 +62,10 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0>)
+                        .drop_in_place(|value| unsafe { value.drop_in_place::<(T0,)>() })
                         .marker_traits(T0::SHAPE.vtable.marker_traits);
 
-                    if Characteristic::Eq.all(&[T0::SHAPE]) {
+                    if Characteristic::Debug.all(&[T0::SHAPE]) {
                         builder = builder.debug(|value, f| {
                             let value = unsafe { value.get::<(T0,)>() };
                             write!(f, "(")?;
@@ -74,7 +75,9 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[T0::SHAPE]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0,)>() };
                             let b = unsafe { b.get::<(T0,)>() };
@@ -122,6 +125,7 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1>)
+                        .drop_in_place(|value| unsafe { value.drop_in_place::<(T0, T1)>() })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
@@ -129,7 +133,7 @@ where
                                 .intersection(T1::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[T0::SHAPE, T1::SHAPE]) {
+                    if Characteristic::Debug.all(&[T0::SHAPE, T1::SHAPE]) {
                         builder = builder.debug(|value, f| {
                             let value = unsafe { value.get::<(T0, T1)>() };
                             write!(f, "(")?;
@@ -144,7 +148,9 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[T0::SHAPE, T1::SHAPE]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1)>() };
                             let b = unsafe { b.get::<(T0, T1)>() };
@@ -206,6 +212,7 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1, T2>)
+                        .drop_in_place(|value| unsafe { value.drop_in_place::<(T0, T1, T2)>() })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
@@ -214,7 +221,7 @@ where
                                 .intersection(T2::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[T0::SHAPE, T1::SHAPE, T2::SHAPE]) {
+                    if Characteristic::Debug.all(&[T0::SHAPE, T1::SHAPE, T2::SHAPE]) {
                         builder = builder.debug(|value, f| {
                             let value = unsafe { value.get::<(T0, T1, T2)>() };
                             write!(f, "(")?;
@@ -234,7 +241,9 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[T0::SHAPE, T1::SHAPE, T2::SHAPE]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2)>() };
                             let b = unsafe { b.get::<(T0, T1, T2)>() };
@@ -325,6 +334,7 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1, T2, T3>)
+                        .drop_in_place(|value| unsafe { value.drop_in_place::<(T0, T1, T2, T3)>() })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
@@ -334,7 +344,7 @@ where
                                 .intersection(T3::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[T0::SHAPE, T1::SHAPE, T2::SHAPE, T3::SHAPE]) {
+                    if Characteristic::Debug.all(&[T0::SHAPE, T1::SHAPE, T2::SHAPE, T3::SHAPE]) {
                         builder = builder.debug(|value, f| {
                             let value = unsafe { value.get::<(T0, T1, T2, T3)>() };
                             write!(f, "(")?;
@@ -359,7 +369,10 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[T0::SHAPE, T1::SHAPE, T2::SHAPE, T3::SHAPE])
+                    {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2, T3)>() };
                             let b = unsafe { b.get::<(T0, T1, T2, T3)>() };
@@ -465,6 +478,9 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1, T2, T3, T4>)
+                        .drop_in_place(|value| unsafe {
+                            value.drop_in_place::<(T0, T1, T2, T3, T4)>()
+                        })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
@@ -475,7 +491,7 @@ where
                                 .intersection(T4::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[
+                    if Characteristic::Debug.all(&[
                         T0::SHAPE,
                         T1::SHAPE,
                         T2::SHAPE,
@@ -511,7 +527,15 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE,
+                        T1::SHAPE,
+                        T2::SHAPE,
+                        T3::SHAPE,
+                        T4::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2, T3, T4)>() };
                             let b = unsafe { b.get::<(T0, T1, T2, T3, T4)>() };
@@ -642,6 +666,9 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1, T2, T3, T4, T5>)
+                        .drop_in_place(|value| unsafe {
+                            value.drop_in_place::<(T0, T1, T2, T3, T4, T5)>()
+                        })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
@@ -653,7 +680,7 @@ where
                                 .intersection(T5::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[
+                    if Characteristic::Debug.all(&[
                         T0::SHAPE,
                         T1::SHAPE,
                         T2::SHAPE,
@@ -695,7 +722,16 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE,
+                        T1::SHAPE,
+                        T2::SHAPE,
+                        T3::SHAPE,
+                        T4::SHAPE,
+                        T5::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2, T3, T4, T5)>() };
                             let b = unsafe { b.get::<(T0, T1, T2, T3, T4, T5)>() };
@@ -842,6 +878,9 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1, T2, T3, T4, T5, T6>)
+                        .drop_in_place(|value| unsafe {
+                            value.drop_in_place::<(T0, T1, T2, T3, T4, T5, T6)>()
+                        })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
@@ -854,7 +893,7 @@ where
                                 .intersection(T6::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[
+                    if Characteristic::Debug.all(&[
                         T0::SHAPE,
                         T1::SHAPE,
                         T2::SHAPE,
@@ -902,7 +941,17 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE,
+                        T1::SHAPE,
+                        T2::SHAPE,
+                        T3::SHAPE,
+                        T4::SHAPE,
+                        T5::SHAPE,
+                        T6::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2, T3, T4, T5, T6)>() };
                             let b = unsafe { b.get::<(T0, T1, T2, T3, T4, T5, T6)>() };
@@ -1065,6 +1114,9 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1, T2, T3, T4, T5, T6, T7>)
+                        .drop_in_place(|value| unsafe {
+                            value.drop_in_place::<(T0, T1, T2, T3, T4, T5, T6, T7)>()
+                        })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
@@ -1078,7 +1130,7 @@ where
                                 .intersection(T7::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[
+                    if Characteristic::Debug.all(&[
                         T0::SHAPE,
                         T1::SHAPE,
                         T2::SHAPE,
@@ -1132,7 +1184,18 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE,
+                        T1::SHAPE,
+                        T2::SHAPE,
+                        T3::SHAPE,
+                        T4::SHAPE,
+                        T5::SHAPE,
+                        T6::SHAPE,
+                        T7::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2, T3, T4, T5, T6, T7)>() };
                             let b = unsafe { b.get::<(T0, T1, T2, T3, T4, T5, T6, T7)>() };
@@ -1311,6 +1374,9 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1, T2, T3, T4, T5, T6, T7, T8>)
+                        .drop_in_place(|value| unsafe {
+                            value.drop_in_place::<(T0, T1, T2, T3, T4, T5, T6, T7, T8)>()
+                        })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
@@ -1325,7 +1391,7 @@ where
                                 .intersection(T8::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[
+                    if Characteristic::Debug.all(&[
                         T0::SHAPE,
                         T1::SHAPE,
                         T2::SHAPE,
@@ -1386,7 +1452,19 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE,
+                        T1::SHAPE,
+                        T2::SHAPE,
+                        T3::SHAPE,
+                        T4::SHAPE,
+                        T5::SHAPE,
+                        T6::SHAPE,
+                        T7::SHAPE,
+                        T8::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8)>() };
                             let b = unsafe { b.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8)>() };
@@ -1582,6 +1660,9 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9>)
+                        .drop_in_place(|value| unsafe {
+                            value.drop_in_place::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9)>()
+                        })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
@@ -1597,7 +1678,7 @@ where
                                 .intersection(T9::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[
+                    if Characteristic::Debug.all(&[
                         T0::SHAPE,
                         T1::SHAPE,
                         T2::SHAPE,
@@ -1664,7 +1745,20 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE,
+                        T1::SHAPE,
+                        T2::SHAPE,
+                        T3::SHAPE,
+                        T4::SHAPE,
+                        T5::SHAPE,
+                        T6::SHAPE,
+                        T7::SHAPE,
+                        T8::SHAPE,
+                        T9::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9)>() };
                             let b = unsafe { b.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9)>() };
@@ -1888,6 +1982,9 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10>)
+                        .drop_in_place(|value| unsafe {
+                            value.drop_in_place::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10)>()
+                        })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
@@ -1904,7 +2001,7 @@ where
                                 .intersection(T10::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[
+                    if Characteristic::Debug.all(&[
                         T0::SHAPE,
                         T1::SHAPE,
                         T2::SHAPE,
@@ -1978,7 +2075,21 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE,
+                        T1::SHAPE,
+                        T2::SHAPE,
+                        T3::SHAPE,
+                        T4::SHAPE,
+                        T5::SHAPE,
+                        T6::SHAPE,
+                        T7::SHAPE,
+                        T8::SHAPE,
+                        T9::SHAPE,
+                        T10::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
                             let a =
                                 unsafe { a.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10)>() };
@@ -2234,6 +2345,7 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11>)
+                        .drop_in_place(|value| unsafe { value.drop_in_place::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11)>() })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
@@ -2251,7 +2363,7 @@ where
                                 .intersection(T11::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[
+                    if Characteristic::Debug.all(&[
                         T0::SHAPE,
                         T1::SHAPE,
                         T2::SHAPE,
@@ -2331,7 +2443,22 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE,
+                        T1::SHAPE,
+                        T2::SHAPE,
+                        T3::SHAPE,
+                        T4::SHAPE,
+                        T5::SHAPE,
+                        T6::SHAPE,
+                        T7::SHAPE,
+                        T8::SHAPE,
+                        T9::SHAPE,
+                        T10::SHAPE,
+                        T11::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe {
                                 a.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11)>()
diff --git a/facet-dev/src/tuples.rs b/facet-dev/src/tuples.rs
index 3a24e50..a76064b 100644
--- a/facet-dev/src/tuples.rs
+++ b/facet-dev/src/tuples.rs
@@ -142,6 +142,14 @@ pub fn generate() -> String {
             "                        .type_name(type_name::<{}>)\n",
             type_params
         );
+        w!(
+            "                        .drop_in_place(|value| unsafe {{ value.drop_in_place::<{}>() }})\n",
+            if n == 1 {
+                "(T0,)".to_string()
+            } else {
+                format!("({})", type_params)
+            }
+        );
         w!("                        .marker_traits(");
         if n == 1 {
             w!("T0::SHAPE.vtable.marker_traits);\n\n")
@@ -157,15 +165,18 @@ pub fn generate() -> String {
         }
 
         // Conditional debug and eq implementations
-        w!("                    if Characteristic::Eq.all(&[");
-        if n <= 5 {
-            w!("{}", shape_list);
+        let shapes = if n <= 5 {
+            shape_list.clone()
         } else {
-            w!("\n");
-            w!("                        {},\n", shape_list);
-            w!("                    ");
-        }
-        w!("]) {{\n");
+            format!(
+                "\n                        {},\n                    ",
+                shape_list
+            )
+        };
+        w!(
+            "                    if Characteristic::Debug.all(&[{}]) {{\n",
+            shapes
+        );
 
         // debug implementation
         w!("                        builder = builder.debug(|value, f| {{\n");
@@ -201,7 +212,13 @@ pub fn generate() -> String {
         w!("                            write!(f, \")\")\n");
         w!("                        }});\n\n");
 
+        w!("                    }}\n\n");
+
         // eq implementation
+        w!(
+            "                    if Characteristic::PartialEq.all(&[{}]) {{\n",
+            shapes
+        );
         w!("                        builder = builder.eq(|a, b| {{\n");
         if n == 1 {
             w!("                            let a = unsafe {{ a.get::<(T0,)>() }};\n");
-- 
2.43.0


From 27d3d4fecf713d2cb16f821b7155850b1c6fb1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:57 +0000
Subject: [PATCH 07/41] fix: ISet::are_all_set overflowed for 64 fields

---
 facet-reflect/src/wip/iset.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/facet-reflect/src/wip/iset.rs b/facet-reflect/src/wip/iset.rs
index e18feef..e4ef47c 100644
--- a/facet-reflect/src/wip/iset.rs
+++ b/facet-reflect/src/wip/iset.rs
@@ -46,7 +46,11 @@ impl ISet {
         if count > 64 {
             panic!("ISet can only track up to 64 fields. Count {count} is out of bounds.");
         }
-        let mask = (1 << count) - 1;
+        let mask = if count == 64 {
+            u64::MAX
+        } else {
+            (1 << count) - 1
+        };
         self.0 & mask == mask
     }
 
-- 
2.43.0


From 86a95e2d2b4848a8236e0f328d8aaad5ab425b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:57 +0000
Subject: [PATCH 08/41] fix: HeapValue::peek could outlive the value; Peek
 comparisons and map lookups ignored shapes

---
 facet-reflect/src/peek/map.rs       | 12 +++++++++---
 facet-reflect/src/peek/value.rs     | 12 ++++++++++--
 facet-reflect/src/wip/heap_value.rs |  2 +-
 3 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/facet-reflect/src/peek/map.rs b/facet-reflect/src/peek/map.rs
index a5a2b51..43b14df 100644
--- a/facet-reflect/src/peek/map.rs
+++ b/facet-reflect/src/peek/map.rs
@@ -1,4 +1,4 @@
-use facet_core::{MapDef, PtrConst, PtrMut};
+use facet_core::{Facet, MapDef, PtrConst, PtrMut};
 
 use super::Peek;
 
@@ -70,7 +70,10 @@ impl<'mem> PeekMap<'mem> {
     }
 
     /// Check if the map contains a key
-    pub fn contains_key(&self, key: &impl facet_core::Facet) -> bool {
+    pub fn contains_key<K: Facet>(&self, key: &K) -> bool {
+        if self.def.k != K::SHAPE {
+            return false;
+        }
         unsafe {
             let key_ptr = PtrConst::new(key);
             (self.def.vtable.contains_key_fn)(self.value.data(), key_ptr)
@@ -78,7 +81,10 @@ impl<'mem> PeekMap<'mem> {
     }
 
     /// Get a value from the map for the given key
-    pub fn get<'k>(&self, key: &'k impl facet_core::Facet) -> Option<Peek<'mem>> {
+    pub fn get<K: Facet>(&self, key: &K) -> Option<Peek<'mem>> {
+        if self.def.k != K::SHAPE {
+            return None;
+        }
         unsafe {
             let key_ptr = PtrConst::new(key);
             let value_ptr = (self.def.vtable.get_value_ptr_fn)(self.value.data(), key_ptr)?;
diff --git a/facet-reflect/src/peek/value.rs b/facet-reflect/src/peek/value.rs
index 28e7097..3589533 100644
--- a/facet-reflect/src/peek/value.rs
+++ b/facet-reflect/src/peek/value.rs
@@ -81,9 +81,13 @@ impl<'mem> Peek<'mem> {
     ///
     /// # Returns
     ///
-    /// `false` if equality comparison is not supported for this scalar type
+    /// `None` if equality comparison is not supported for this scalar type, or
+    /// if the other value has a different shape
     #[inline]
     pub fn eq(&self, other: &Peek<'_>) -> Option<bool> {
+        if self.shape != other.shape {
+            return None;
+        }
         unsafe {
             self.shape
                 .vtable
@@ -96,9 +100,13 @@ impl<'mem> Peek<'mem> {
     ///
     /// # Returns
     ///
-    /// `None` if comparison is not supported for this scalar type
+    /// `None` if comparison is not supported for this scalar type, or if the
+    /// other value has a different shape
     #[inline]
     pub fn partial_cmp(&self, other: &Peek<'_>) -> Option<Ordering> {
+        if self.shape != other.shape {
+            return None;
+        }
         unsafe {
             self.shape
                 .vtable
diff --git a/facet-reflect/src/wip/heap_value.rs b/facet-reflect/src/wip/heap_value.rs
index 31f67b5..3df6446 100644
--- a/facet-reflect/src/wip/heap_value.rs
+++ b/facet-reflect/src/wip/heap_value.rs
@@ -26,7 +26,7 @@ impl Drop for HeapValue<'_> {
 
 impl<'a> HeapValue<'a> {
     /// Returns a peek that allows exploring the heap value.
-    pub fn peek(&self) -> Peek<'a> {
+    pub fn peek(&self) -> Peek<'_> {
         unsafe { Peek::unchecked_new(PtrConst::new(self.guard.as_ref().unwrap().ptr), self.shape) }
     }
 
-- 
2.43.0


From cc877ef665bf69ebd0911e54b9c2be641da38cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:57 +0000
Subject: [PATCH 09/41] fix: Wip drops and frees exactly what was initialized
 when overwriting, failing, or being abandoned

---
 facet-json/src/deserialize.rs  |  23 +-
 facet-reflect/src/wip/enum_.rs |  11 +-
 facet-reflect/src/wip/mod.rs   | 649 +++++++++++++++------------------
 3 files changed, 300 insertions(+), 383 deletions(-)

diff --git a/facet-json/src/deserialize.rs b/facet-json/src/deserialize.rs
index 174417a..44cb7e9 100644
--- a/facet-json/src/deserialize.rs
+++ b/facet-json/src/deserialize.rs
@@ -578,28 +578,7 @@ pub fn from_slice_wip<'input, 'a>(
                                 "Default struct has missing fields, the `default` impl but it does not implement Default"
                             )
                         }
-                        let default_struct_val = Wip::alloc_shape(wip.shape())
-                            .put_default()
-                            .unwrap()
-                            .build()
-                            .unwrap();
-                        let peek = default_struct_val.peek().into_struct().unwrap();
-
-                        // For every missing field, take it from the peek and copy it into the wip
-                        if let Def::Struct(sd) = wip.shape().def {
-                            for i in 0..sd.fields.len() {
-                                if !wip.is_field_set(i).unwrap() {
-                                    let field_value = peek.field(i).unwrap();
-                                    wip = wip
-                                        .field(i)
-                                        .unwrap()
-                                        .put_peek(field_value)
-                                        .unwrap()
-                                        .pop()
-                                        .unwrap();
-                                }
-                            }
-                        }
+                        wip = wip.put_unset_fields_from_default().unwrap();
                     }
 
                     if frame_count == 1 {
diff --git a/facet-reflect/src/wip/enum_.rs b/facet-reflect/src/wip/enum_.rs
index e543bd2..43316c4 100644
--- a/facet-reflect/src/wip/enum_.rs
+++ b/facet-reflect/src/wip/enum_.rs
@@ -3,7 +3,7 @@ use facet_core::{Def, FieldError, Variant};
 use owo_colors::OwoColorize;
 
 use crate::trace;
-use crate::{ISet, ReflectError, Wip};
+use crate::{ReflectError, Wip};
 
 impl Wip<'_> {
     /// Selects a variant of an enum by index.
@@ -17,7 +17,8 @@ impl Wip<'_> {
     /// * `Ok(Self)` if the variant was successfully selected.
     /// * `Err(ReflectError)` if the current frame is not an enum or the variant index is out of bounds.
     pub fn variant(mut self, index: usize) -> Result<Self, ReflectError> {
-        let frame = self.frames.last_mut().unwrap();
+        let frame = self.frames.last().unwrap();
+        frame.check_writable()?;
         let shape = frame.shape;
         let Def::Enum(def) = shape.def else {
             return Err(ReflectError::WasNotA {
@@ -35,8 +36,10 @@ impl Wip<'_> {
 
         let variant = def.variants[index];
 
-        // Reset the field initialization state since we're selecting a new variant
-        ISet::clear(&mut frame.istate.fields);
+        // Drop whatever was initialized so far (and reset the field initialization
+        // state) since we're selecting a new variant
+        self.deinit_current();
+        let frame = self.frames.last_mut().unwrap();
 
         // Write the discriminant value based on the enum's representation
         let discriminant = variant.discriminant;
diff --git a/facet-reflect/src/wip/mod.rs b/facet-reflect/src/wip/mod.rs
index 6b16ef1..9db9a30 100644
--- a/facet-reflect/src/wip/mod.rs
+++ b/facet-reflect/src/wip/mod.rs
@@ -6,11 +6,10 @@ use alloc::string::ToString;
 use owo_colors::OwoColorize;
 
 use alloc::format;
-use alloc::{vec, vec::Vec};
 use bitflags::bitflags;
 use core::{fmt, marker::PhantomData};
 use facet_core::{
-    Def, DefaultInPlaceFn, Facet, FieldError, PtrConst, PtrMut, PtrUninit, Shape, Variant,
+    Def, DefaultInPlaceFn, Facet, Field, FieldError, PtrConst, PtrMut, PtrUninit, Shape, Variant,
 };
 use flat_map::FlatMap;
 
@@ -123,6 +122,15 @@ impl Frame {
         ValueId::new(self.shape, self.data.as_byte_ptr())
     }
 
+    /// Returns the fields of this frame (for an enum, those of the selected variant)
+    fn fields(&self) -> &'static [Field] {
+        match self.shape.def {
+            Def::Struct(sd) => sd.fields,
+            Def::Enum(_) => self.istate.variant.map_or(&[], |v| v.data.fields),
+            _ => &[],
+        }
+    }
+
     /// Returns true if the frame is fully initialized
     fn is_fully_initialized(&self) -> bool {
         match self.shape.def {
@@ -135,29 +143,16 @@ impl Frame {
         }
     }
 
-    // Safety: only call if is fully initialized
-    unsafe fn drop_and_dealloc_if_needed(mut self) {
-        trace!(
-            "[Frame::drop] Dropping frame for shape {} at {:p}",
-            self.shape.blue(),
-            self.data.as_byte_ptr()
-        );
-        if let Some(drop_in_place) = self.shape.vtable.drop_in_place {
-            unsafe {
-                trace!(
-                    "[Frame::drop] Invoking drop_in_place for shape {} at {:p}",
-                    self.shape.green(),
-                    self.data.as_byte_ptr()
-                );
-                drop_in_place(self.data.assume_init());
-            }
-        } else {
-            trace!(
-                "[Frame::drop] No drop_in_place function for shape {}",
-                self.shape.blue(),
-            );
+    /// Errors if this frame stands for the `None` of an option: there's no
+    /// value to write to in there.
+    fn check_writable(&self) -> Result<(), ReflectError> {
+        if self.istate.mode == FrameMode::OptionNone {
+            return Err(ReflectError::OperationFailed {
+                shape: self.shape,
+                operation: "tried to write into an option that was set to None",
+            });
         }
-        self.dealloc_if_needed();
+        Ok(())
     }
 
     /// Marks the frame as fully initialized
@@ -167,8 +162,14 @@ impl Frame {
                 self.istate.fields = ISet::all(sd.fields);
             }
             Def::Enum(_) => {
-                if let Some(variant) = &self.istate.variant {
+                // the value was written all at once: find out which variant it has
+                let peek = unsafe {
+                    crate::Peek::unchecked_new(PtrConst::new(self.data.as_byte_ptr()), self.shape)
+                };
+                if let Ok(peek) = peek.into_enum() {
+                    let variant = *peek.active_variant();
                     self.istate.fields = ISet::all(variant.data.fields);
+                    self.istate.variant = Some(variant);
                 }
             }
             _ => {
@@ -179,6 +180,7 @@ impl Frame {
 }
 
 /// Initialization state
+#[derive(Clone)]
 struct IState {
     /// Variant chosen — for everything except enums, this stays None
     variant: Option<Variant>,
@@ -292,7 +294,28 @@ impl<'a> Wip<'a> {
     where
         'a: 'mem,
     {
-        self.put_shape(peek.data, peek.shape)
+        let shape = peek.shape;
+        let Some(clone_into) = shape.vtable.clone_into else {
+            return Err(ReflectError::MissingCharacteristic {
+                shape,
+                characteristic: facet_core::Characteristic::Clone,
+            });
+        };
+
+        // the peeked value still belongs to someone else: put a copy of it
+        let copy = shape.allocate();
+        let _guard = Guard {
+            ptr: copy.as_mut_byte_ptr(),
+            layout: shape.layout,
+        };
+        unsafe { clone_into(peek.data, copy) };
+        let res = self.put_shape(PtrConst::new(copy.as_byte_ptr()), shape);
+        if res.is_err() {
+            if let Some(drop_in_place) = shape.vtable.drop_in_place {
+                unsafe { drop_in_place(copy.assume_init()) };
+            }
+        }
+        res
     }
 
     /// Returns the number of frames on the stack
@@ -332,6 +355,8 @@ impl<'a> Wip<'a> {
     }
 
     unsafe fn mark_moved_out_of(&mut self, frame: &mut Frame) {
+        // its fields were moved along with it
+        self.evict_fields(frame);
         frame.dealloc_if_needed();
         ISet::clear(&mut frame.istate.fields);
         frame.istate.variant = None;
@@ -341,6 +366,61 @@ impl<'a> Wip<'a> {
         self.istates.remove(&frame.id());
     }
 
+    /// Drops whatever was initialized in the given frame so far (it might be all
+    /// of it, or only some fields), leaving its memory uninitialized.
+    fn deinit(&mut self, frame: &mut Frame) {
+        if frame.istate.flags.contains(FrameFlags::MOVED) {
+            return;
+        }
+
+        if frame.is_fully_initialized() {
+            trace!("Dropping fully initialized {}", frame.shape.green());
+            self.evict_fields(frame);
+            if let Some(drop_in_place) = frame.shape.vtable.drop_in_place {
+                unsafe { drop_in_place(frame.data.assume_init()) };
+            }
+        } else {
+            trace!("De-initializing {} field-by-field", frame.shape.yellow());
+            for (i, field) in frame.fields().iter().enumerate() {
+                let field_ptr = unsafe { frame.data.field_uninit_at(field.offset) };
+                let field_id = ValueId::new(field.shape(), field_ptr.as_byte_ptr());
+                if let Some(field_istate) = self.istates.remove(&field_id) {
+                    self.deinit(&mut Frame::recompose(field_id, field_istate));
+                } else if frame.istate.fields.has(i) {
+                    if let Some(drop_in_place) = field.shape().vtable.drop_in_place {
+                        unsafe { drop_in_place(field_ptr.assume_init()) };
+                    }
+                }
+            }
+        }
+
+        frame.istate.variant = None;
+        ISet::clear(&mut frame.istate.fields);
+    }
+
+    /// De-initializes the current frame, so that it can be written to again
+    fn deinit_current(&mut self) {
+        if let Some(mut frame) = self.frames.pop() {
+            self.deinit(&mut frame);
+            self.frames.push(frame);
+        }
+    }
+
+    /// Makes sure we can put a value into the current frame, dropping whatever
+    /// it contains already.
+    fn prepare_put(&mut self) -> Result<(), ReflectError> {
+        let Some(frame) = self.frames.last() else {
+            return Err(ReflectError::OperationFailed {
+                shape: <()>::SHAPE,
+                operation: "tried to put a value but there was no frame to put into",
+            });
+        };
+        frame.check_writable()?;
+        self.check_field_not_initialized(frame.shape, frame.field_index_in_parent)?;
+        self.deinit_current();
+        Ok(())
+    }
+
     /// Returns the shape of the current frame
     pub fn shape(&self) -> &'static Shape {
         self.frames.last().unwrap().shape
@@ -378,26 +458,18 @@ impl<'a> Wip<'a> {
         };
 
         let root_id = *root_id;
-        // We need to *keep* the root istate for the check, so we clone it or get it immutably.
-        // Let's retrieve it immutably first. The `istates` map will be dropped with `Wip` anyway.
+        // Everything stays tracked in `istates` during the checks, so that our `Drop`
+        // impl cleans up if we error out.
         let root_istate = self
             .istates
-            .remove(&root_id)
-            .expect("Root ID found but not present in istates, this is a bug"); // Clone needed to avoid borrowing issues later potentially
+            .get(&root_id)
+            .cloned()
+            .expect("Root ID found but not present in istates, this is a bug");
 
         let root_frame = Frame::recompose(root_id, root_istate);
         let root_shape = root_frame.shape;
         let root_data_ptr = root_frame.data; // Keep the root pointer for the final HeapValue
 
-        // 6. Transfer ownership of the root data to the HeapValue
-        // The root frame should have had the ALLOCATED flag if it was heap allocated.
-        // We need to ensure the Guard takes ownership correctly.
-        // Find the original root istate again to check the flag.
-        let guard = Guard {
-            ptr: root_data_ptr.as_mut_byte_ptr(),
-            layout: root_shape.layout,
-        };
-
         // 3. Initialize `to_check`
         let mut to_check = alloc::vec![root_frame];
 
@@ -447,7 +519,7 @@ impl<'a> Wip<'a> {
                         let field_ptr = unsafe { frame.data.field_init_at(field.offset) };
                         let field_id = ValueId::new(field_shape, field_ptr.as_byte_ptr());
 
-                        if let Some(field_istate) = self.istates.remove(&field_id) {
+                        if let Some(field_istate) = self.istates.get(&field_id).cloned() {
                             debug!(
                                 "Queueing struct field check: #{} '{}' of {}: shape={}, ptr={:p}",
                                 _i.to_string().bright_cyan(),
@@ -490,7 +562,7 @@ impl<'a> Wip<'a> {
                             let field_ptr = unsafe { frame.data.field_init_at(field.offset) };
                             let field_id = ValueId::new(field_shape, field_ptr.as_byte_ptr());
 
-                            if let Some(field_istate) = self.istates.remove(&field_id) {
+                            if let Some(field_istate) = self.istates.get(&field_id).cloned() {
                                 debug!(
                                     "Queueing enum field check: #{} '{}' of variant '{}' of {}: shape={}, ptr={:p}",
                                     _i.to_string().bright_cyan(),
@@ -577,7 +649,15 @@ impl<'a> Wip<'a> {
             );
         }
 
-        FlatMap::clear(&mut self.istates); // Prevent Drop from running on the successfully built value.
+        // 6. Transfer ownership of the root data to the HeapValue: prevent Drop from
+        // running on the successfully built value.
+        if let Some(root_istate) = self.istates.remove(&root_id) {
+            self.evict_fields(&Frame::recompose(root_id, root_istate));
+        }
+        let guard = Guard {
+            ptr: root_data_ptr.as_mut_byte_ptr(),
+            layout: root_shape.layout,
+        };
 
         Ok(HeapValue {
             guard: Some(guard),
@@ -599,6 +679,7 @@ impl<'a> Wip<'a> {
     ///   or if the field doesn't exist.
     pub fn field(mut self, index: usize) -> Result<Self, ReflectError> {
         let frame = self.frames.last_mut().unwrap();
+        frame.check_writable()?;
         let shape = frame.shape;
 
         let (field, field_offset) = match shape.def {
@@ -675,6 +756,10 @@ impl<'a> Wip<'a> {
                 index.yellow(),
                 shape.blue(),
             );
+            // the parent might have been initialized all at once
+            if self.frames.last().unwrap().istate.fields.has(index) {
+                unsafe { frame.mark_fully_initialized() };
+            }
         }
         self.frames.push(frame);
         Ok(self)
@@ -751,10 +836,13 @@ impl<'a> Wip<'a> {
     where
         'a: 'val,
     {
-        let shape = T::SHAPE;
-        let ptr_const = PtrConst::new(&t as *const T as *const u8);
-        let res = self.put_shape(ptr_const, shape);
-        core::mem::forget(t); // avoid double drop; ownership moved into Wip
+        let t = core::mem::ManuallyDrop::new(t); // avoid double drop
+        let ptr_const = PtrConst::new(&*t as *const T as *const u8);
+        let res = self.put_shape(ptr_const, T::SHAPE);
+        if res.is_err() {
+            // nobody took ownership of the value
+            drop(core::mem::ManuallyDrop::into_inner(t));
+        }
         res
     }
 
@@ -774,7 +862,7 @@ impl<'a> Wip<'a> {
     where
         'a: 'val,
     {
-        let Some(frame) = self.frames.last_mut() else {
+        let Some(frame) = self.frames.last() else {
             return Err(ReflectError::OperationFailed {
                 shape: src_shape,
                 operation: "tried to put a value but there was no frame to put into",
@@ -789,14 +877,10 @@ impl<'a> Wip<'a> {
                 // Check if inner type matches
                 if od.t() == src_shape {
                     debug!("Putting into an Option<T>!");
-                    if frame.istate.fields.is_any_set() {
-                        let data = unsafe { frame.data.assume_init() };
-                        unsafe { (od.vtable.replace_with_fn)(data, Some(src)) };
-                    } else {
-                        let data = frame.data;
-                        unsafe { (od.vtable.init_some_fn)(data, src) };
-                    }
+                    self.prepare_put()?;
+                    let frame = self.frames.last_mut().unwrap();
                     unsafe {
+                        (od.vtable.init_some_fn)(frame.data, src);
                         frame.mark_fully_initialized();
                     }
 
@@ -818,50 +902,9 @@ impl<'a> Wip<'a> {
             });
         }
 
-        // de-initialize partially initialized fields, if any
-        if frame.istate.variant.is_some() || frame.istate.fields.is_any_set() {
-            debug!(
-                "De-initializing partially initialized fields for {}",
-                frame.shape
-            );
-
-            match frame.shape.def {
-                Def::Struct(sd) => {
-                    for (i, field) in sd.fields.iter().enumerate() {
-                        if frame.istate.fields.has(i) {
-                            if let Some(drop_fn) = field.shape().vtable.drop_in_place {
-                                unsafe {
-                                    let field_ptr = frame.data.as_mut_byte_ptr().add(field.offset);
-                                    drop_fn(PtrMut::new(field_ptr));
-                                }
-                            }
-                        }
-                    }
-                }
-                Def::Enum(_) => {
-                    if let Some(variant) = &frame.istate.variant {
-                        for (i, field) in variant.data.fields.iter().enumerate() {
-                            if frame.istate.fields.has(i) {
-                                if let Some(drop_fn) = field.shape().vtable.drop_in_place {
-                                    unsafe {
-                                        let field_ptr =
-                                            frame.data.as_mut_byte_ptr().add(field.offset);
-                                        drop_fn(PtrMut::new(field_ptr));
-                                    }
-                                }
-                            }
-                        }
-                    }
-                }
-                _ => {
-                    // For scalar types, nothing to do if not fully initialized
-                }
-            }
-
-            // Reset initialization state
-            frame.istate.variant = None;
-            ISet::clear(&mut frame.istate.fields);
-        }
+        // de-initialize the value (or partially initialized fields), if any
+        self.prepare_put()?;
+        let frame = self.frames.last_mut().unwrap();
 
         unsafe {
             // Copy the contents from src to destination
@@ -882,7 +925,7 @@ impl<'a> Wip<'a> {
 
     /// Tries to parse the current frame's value from a string
     pub fn parse(mut self, s: &str) -> Result<Self, ReflectError> {
-        let Some(frame) = self.frames.last_mut() else {
+        let Some(frame) = self.frames.last() else {
             return Err(ReflectError::OperationFailed {
                 shape: <()>::SHAPE,
                 operation: "tried to parse value but there was no frame",
@@ -898,6 +941,9 @@ impl<'a> Wip<'a> {
                 operation: "type does not implement Parse",
             });
         };
+
+        self.prepare_put()?;
+        let frame = self.frames.last_mut().unwrap();
         match unsafe { (parse_fn)(s, frame.data) } {
             Ok(_res) => {
                 unsafe {
@@ -918,12 +964,8 @@ impl<'a> Wip<'a> {
 
     /// Puts a value using a provided DefaultInPlaceFn in the current frame.
     pub fn put_from_fn(mut self, default_in_place: DefaultInPlaceFn) -> Result<Self, ReflectError> {
-        let Some(frame) = self.frames.last_mut() else {
-            return Err(ReflectError::OperationFailed {
-                shape: <()>::SHAPE,
-                operation: "tried to put value from fn but there was no frame",
-            });
-        };
+        self.prepare_put()?;
+        let frame = self.frames.last_mut().unwrap();
 
         unsafe {
             default_in_place(frame.data);
@@ -959,31 +1001,80 @@ impl<'a> Wip<'a> {
         self.put_from_fn(default_in_place)
     }
 
-    /// Marks a field as initialized in the parent frame.
-    fn mark_field_as_initialized(
-        &mut self,
+    /// Takes the fields of the current struct that weren't initialized yet from
+    /// the struct's default value.
+    pub fn put_unset_fields_from_default(mut self) -> Result<Self, ReflectError> {
+        let Some(frame) = self.frames.last() else {
+            return Err(ReflectError::OperationFailed {
+                shape: <()>::SHAPE,
+                operation: "tried to put default fields but there was no frame",
+            });
+        };
+        frame.check_writable()?;
+
+        let shape = frame.shape;
+        let data = frame.data;
+        let Def::Struct(sd) = shape.def else {
+            return Err(ReflectError::WasNotA {
+                expected: "struct",
+                actual: shape,
+            });
+        };
+        let Some(default_in_place) = shape.vtable.default_in_place else {
+            return Err(ReflectError::OperationFailed {
+                shape,
+                operation: "type does not implement Default",
+            });
+        };
+
+        let defaults = shape.allocate();
+        let _guard = Guard {
+            ptr: defaults.as_mut_byte_ptr(),
+            layout: shape.layout,
+        };
+        unsafe { default_in_place(defaults) };
+
+        // From there on, every field of `defaults` is either moved out of, or dropped
+        for (i, field) in sd.fields.iter().enumerate() {
+            let field_shape = field.shape();
+            let (src, dst) = unsafe {
+                (
+                    defaults.field_init_at(field.offset),
+                    data.field_uninit_at(field.offset),
+                )
+            };
+            if self.is_field_set(i)? {
+                if let Some(drop_in_place) = field_shape.vtable.drop_in_place {
+                    unsafe { drop_in_place(src) };
+                }
+            } else {
+                let field_id = ValueId::new(field_shape, dst.as_byte_ptr());
+                if let Some(field_istate) = self.istates.remove(&field_id) {
+                    self.deinit(&mut Frame::recompose(field_id, field_istate));
+                }
+                unsafe { dst.copy_from(PtrConst::new(src.as_byte_ptr()), field_shape) };
+                let frame = self.frames.last_mut().unwrap();
+                frame.istate.fields.set(i);
+            }
+        }
+
+        Ok(self)
+    }
+
+    /// Checks that the current frame's value is still missing from the parent frame.
+    fn check_field_not_initialized(
+        &self,
         shape: &'static Shape,
         index: Option<usize>,
     ) -> Result<(), ReflectError> {
         if let Some(index) = index {
             let parent_index = self.frames.len().saturating_sub(2);
-            #[cfg(feature = "log")]
-            let num_frames = self.frames.len();
-            let Some(parent) = self.frames.get_mut(parent_index) else {
+            let Some(parent) = self.frames.get(parent_index) else {
                 return Err(ReflectError::OperationFailed {
                     shape,
                     operation: "was supposed to mark a field as initialized, but there was no parent frame",
                 });
             };
-            #[cfg(feature = "log")]
-            let parent_shape = parent.shape;
-            trace!(
-                "[{}] {}.{} initialized with {}",
-                num_frames,
-                parent_shape.blue(),
-                index.yellow(),
-                shape.green()
-            );
 
             if matches!(parent.shape.def, Def::Enum(_)) && parent.istate.variant.is_none() {
                 return Err(ReflectError::OperationFailed {
@@ -998,7 +1089,21 @@ impl<'a> Wip<'a> {
                     operation: "was supposed to mark a field as initialized, but the parent frame already had it marked as initialized",
                 });
             }
+        }
+        Ok(())
+    }
 
+    /// Marks a field as initialized in the parent frame.
+    fn mark_field_as_initialized(
+        &mut self,
+        shape: &'static Shape,
+        index: Option<usize>,
+    ) -> Result<(), ReflectError> {
+        self.check_field_not_initialized(shape, index)?;
+        if let Some(index) = index {
+            let parent_index = self.frames.len().saturating_sub(2);
+            let parent = &mut self.frames[parent_index];
+            trace!("{}.{} initialized", parent.shape.blue(), index.yellow());
             parent.istate.fields.set(index);
         }
         Ok(())
@@ -1034,7 +1139,7 @@ impl<'a> Wip<'a> {
 
     /// Creates an empty list without pushing any elements
     pub fn put_empty_list(mut self) -> Result<Self, ReflectError> {
-        let Some(frame) = self.frames.last_mut() else {
+        let Some(frame) = self.frames.last() else {
             return Err(ReflectError::OperationFailed {
                 shape: <()>::SHAPE,
                 operation: "tried to create empty list but there was no frame",
@@ -1058,6 +1163,9 @@ impl<'a> Wip<'a> {
             });
         };
 
+        self.prepare_put()?;
+        let frame = self.frames.last_mut().unwrap();
+
         unsafe {
             default_in_place(frame.data);
             frame.mark_fully_initialized();
@@ -1074,7 +1182,7 @@ impl<'a> Wip<'a> {
 
     /// Creates an empty map without pushing any entries
     pub fn put_empty_map(mut self) -> Result<Self, ReflectError> {
-        let Some(frame) = self.frames.last_mut() else {
+        let Some(frame) = self.frames.last() else {
             return Err(ReflectError::OperationFailed {
                 shape: <()>::SHAPE,
                 operation: "tried to create empty map but there was no frame",
@@ -1098,6 +1206,9 @@ impl<'a> Wip<'a> {
             });
         };
 
+        self.prepare_put()?;
+        let frame = self.frames.last_mut().unwrap();
+
         unsafe {
             default_in_place(frame.data);
             frame.mark_fully_initialized();
@@ -1121,6 +1232,8 @@ impl<'a> Wip<'a> {
             });
         };
 
+        frame.check_writable()?;
+
         if !matches!(frame.shape.def, Def::List(_)) {
             return Err(ReflectError::WasNotA {
                 expected: "list or array",
@@ -1157,6 +1270,8 @@ impl<'a> Wip<'a> {
             });
         };
 
+        frame.check_writable()?;
+
         if !matches!(frame.shape.def, Def::Map(_)) {
             return Err(ReflectError::WasNotA {
                 expected: "map or hash map",
@@ -1191,6 +1306,7 @@ impl<'a> Wip<'a> {
     pub fn push(mut self) -> Result<Self, ReflectError> {
         // Make sure we're initializing a list
         let frame = self.frames.last().unwrap();
+        frame.check_writable()?;
         let list_shape = frame.shape;
 
         if !matches!(list_shape.def, Def::List(_)) {
@@ -1238,6 +1354,7 @@ impl<'a> Wip<'a> {
     pub fn push_some(mut self) -> Result<Self, ReflectError> {
         // Make sure we're initializing an option
         let frame = self.frames.last().unwrap();
+        frame.check_writable()?;
         let option_shape = frame.shape;
 
         // Get the option definition
@@ -1312,12 +1429,13 @@ impl<'a> Wip<'a> {
             });
         }
 
-        frame.dealloc_if_needed();
-
         // 3. Pop the frame (this discards, doesn't propagate up)
-        let _frame = self.frames.pop().expect("frame already checked");
+        self.deinit_current();
+        let mut frame = self.frames.pop().expect("frame already checked");
+        frame.dealloc_if_needed();
 
         // 4. Set parent option (which we just popped into) to default (None)
+        self.deinit_current();
         let parent_frame = self
             .frames
             .last_mut()
@@ -1349,15 +1467,13 @@ impl<'a> Wip<'a> {
         // Now push a `None` frame
         let data = parent_frame.data;
 
-        let mut frame = Frame {
+        // (there's no value in there, so it must never be tracked: hence MOVED)
+        let frame = Frame {
             data,
             shape: od.t(),
-            field_index_in_parent: Some(0),
-            istate: IState::new(self.frames.len(), FrameMode::OptionNone, FrameFlags::EMPTY),
+            field_index_in_parent: None,
+            istate: IState::new(self.frames.len(), FrameMode::OptionNone, FrameFlags::MOVED),
         };
-        unsafe {
-            frame.mark_fully_initialized();
-        }
 
         self.frames.push(frame);
 
@@ -1371,6 +1487,7 @@ impl<'a> Wip<'a> {
     pub fn push_map_key(mut self) -> Result<Self, ReflectError> {
         // Make sure we're initializing a map
         let frame = self.frames.last().unwrap();
+        frame.check_writable()?;
         let map_shape = frame.shape;
 
         if !matches!(map_shape.def, Def::Map(_)) {
@@ -1506,29 +1623,35 @@ impl<'a> Wip<'a> {
         Ok(self)
     }
 
+    /// Reflects the state of a field that was just popped in its parent frame
+    fn sync_parent(&mut self, frame: &Frame) {
+        if let Some(parent) = self.frames.last_mut() {
+            if let Some(index) = frame.field_index_in_parent {
+                if frame.is_fully_initialized() {
+                    parent.istate.fields.set(index);
+                } else {
+                    parent.istate.fields.unset(index);
+                }
+            }
+        }
+    }
+
     fn pop_inner(&mut self) -> Option<Frame> {
         let mut frame = self.frames.pop()?;
         #[cfg(feature = "log")]
         let frame_shape = frame.shape;
 
-        let init = frame.is_fully_initialized();
         trace!(
             "[{}] {} popped, {} initialized",
             self.frames.len(),
             frame_shape.blue(),
-            if init {
+            if frame.is_fully_initialized() {
                 "✅ fully".style(owo_colors::Style::new().green())
             } else {
                 "🚧 partially".style(owo_colors::Style::new().red())
             }
         );
-        if init {
-            if let Some(parent) = self.frames.last_mut() {
-                if let Some(index) = frame.field_index_in_parent {
-                    parent.istate.fields.set(index);
-                }
-            }
-        }
+        self.sync_parent(&frame);
 
         // Handle special frame modes
         match frame.istate.mode {
@@ -1584,7 +1707,7 @@ impl<'a> Wip<'a> {
                 let mut key_frame = self.frames.remove(key_frame_index);
 
                 // Make sure the key is fully initialized
-                if !key_frame.istate.fields.is_any_set() {
+                if !key_frame.is_fully_initialized() {
                     panic!("key is not initialized when popping value frame");
                 }
 
@@ -1629,6 +1752,9 @@ impl<'a> Wip<'a> {
                 if frame.is_fully_initialized() {
                     trace!("Popping OptionSome (fully init'd)");
 
+                    // the option might have been set already
+                    self.deinit_current();
+
                     // Get parent frame
                     #[cfg(feature = "log")]
                     let frames_len = self.frames.len();
@@ -1681,72 +1807,16 @@ impl<'a> Wip<'a> {
         Some(frame)
     }
 
-    /// Evict a frame from istates, along with all its children
-    /// (because we're about to use `drop_in_place` on it — not
-    /// yet though, we need to know the variant for enums, etc.)
-    pub fn evict_tree(&mut self, frame: Frame) -> Frame {
-        match frame.shape.def {
-            Def::Struct(sd) => {
-                for f in sd.fields {
-                    let id = ValueId {
-                        shape: f.shape(),
-                        ptr: unsafe { frame.data.field_uninit_at(f.offset) }.as_byte_ptr(),
-                    };
-                    if let Some(istate) = self.istates.remove(&id) {
-                        let frame = Frame::recompose(id, istate);
-                        self.evict_tree(frame);
-                    } else {
-                        trace!("No istate found for field {}", f.name);
-                    }
-                }
+    /// Evict all the children of a frame from istates (because they're about to
+    /// be dropped, or moved, along with it)
+    fn evict_fields(&mut self, frame: &Frame) {
+        for field in frame.fields() {
+            let field_ptr = unsafe { frame.data.field_uninit_at(field.offset) };
+            let field_id = ValueId::new(field.shape(), field_ptr.as_byte_ptr());
+            if let Some(field_istate) = self.istates.remove(&field_id) {
+                self.evict_fields(&Frame::recompose(field_id, field_istate));
             }
-            Def::Enum(_ed) => {
-                // Check if a variant is selected in the istate
-                if let Some(variant) = &frame.istate.variant {
-                    trace!(
-                        "Evicting enum {} variant '{}' fields",
-                        frame.shape.blue(),
-                        variant.name.yellow()
-                    );
-                    // Iterate over the fields of the selected variant
-                    for field in variant.data.fields {
-                        // Calculate the pointer to the field within the enum's data payload
-                        let field_ptr = unsafe { frame.data.field_uninit_at(field.offset) };
-                        let field_shape = field.shape();
-                        let field_id = ValueId::new(field_shape, field_ptr.as_byte_ptr());
-
-                        // Try to remove the field's state from istates
-                        if let Some(field_istate) = self.istates.remove(&field_id) {
-                            trace!(
-                                "Evicting field '{}' (shape {}) of enum variant '{}'",
-                                field.name.bright_blue(),
-                                field_shape.green(),
-                                variant.name.yellow()
-                            );
-                            // Recompose the frame for the field
-                            let field_frame = Frame::recompose(field_id, field_istate);
-                            // Recursively evict the field's subtree
-                            self.evict_tree(field_frame);
-                        } else {
-                            trace!(
-                                "Field '{}' (shape {}) of enum variant '{}' not found in istates, skipping eviction",
-                                field.name.red(),
-                                field_shape.red(),
-                                variant.name.yellow()
-                            );
-                        }
-                    }
-                } else {
-                    // No variant selected, nothing to evict within the enum
-                    trace!(
-                        "Enum {} has no variant selected, no fields to evict.",
-                        frame.shape.blue()
-                    );
-                }
-            }
-            _ => {}
         }
-        frame
     }
 
     #[allow(rustdoc::broken_intra_doc_links)]
@@ -1859,161 +1929,26 @@ impl Drop for Wip<'_> {
         trace!("🧹🧹🧹 WIP is dropping");
 
         while let Some(frame) = self.frames.pop() {
+            self.sync_parent(&frame);
             self.track(frame);
         }
 
-        let Some((root_id, _)) = self.istates.iter().find(|(_k, istate)| istate.depth == 0) else {
-            trace!("No root found, we probably built already");
-            return;
-        };
-
-        let root_id = *root_id;
-        let root_istate = self.istates.remove(&root_id).unwrap();
-        let root = Frame::recompose(root_id, root_istate);
-        let mut to_clean = vec![root];
-
-        let mut _root_guard: Option<Guard> = None;
-
-        while let Some(mut frame) = to_clean.pop() {
-            trace!(
-                "Cleaning frame: shape={} at {:p}, flags={:?}, mode={:?}, fully_initialized={}",
-                frame.shape.blue(),
-                frame.data.as_byte_ptr(),
-                frame.istate.flags.bright_magenta(),
-                frame.istate.mode.yellow(),
-                if frame.is_fully_initialized() {
-                    "✅"
-                } else {
-                    "❌"
-                }
-            );
-
-            if frame.istate.flags.contains(FrameFlags::MOVED) {
-                trace!(
-                    "{}",
-                    "Frame was moved out of, nothing to dealloc/drop_in_place".yellow()
-                );
-                continue;
-            }
-
-            match frame.shape.def {
-                Def::Struct(sd) => {
-                    if frame.is_fully_initialized() {
-                        trace!(
-                            "Dropping fully initialized struct: {} at {:p}",
-                            frame.shape.green(),
-                            frame.data.as_byte_ptr()
-                        );
-                        let frame = self.evict_tree(frame);
-                        unsafe { frame.drop_and_dealloc_if_needed() };
-                    } else {
-                        let num_fields = sd.fields.len();
-                        trace!(
-                            "De-initializing struct {} at {:p} field-by-field ({} fields)",
-                            frame.shape.yellow(),
-                            frame.data.as_byte_ptr(),
-                            num_fields.to_string().bright_cyan()
-                        );
-                        for i in 0..num_fields {
-                            if frame.istate.fields.has(i) {
-                                let field = sd.fields[i];
-                                let field_shape = field.shape();
-                                let field_ptr = unsafe { frame.data.field_init_at(field.offset) };
-                                let field_id = ValueId::new(field_shape, field_ptr.as_byte_ptr());
-                                trace!(
-                                    "Recursively cleaning field #{} '{}' of {}: field_shape={}, field_ptr={:p}",
-                                    i.to_string().bright_cyan(),
-                                    field.name.bright_blue(),
-                                    frame.shape.blue(),
-                                    field_shape.green(),
-                                    field_ptr.as_byte_ptr()
-                                );
-                                let istate = self.istates.remove(&field_id).unwrap();
-                                let field_frame = Frame::recompose(field_id, istate);
-                                to_clean.push(field_frame);
-                            } else {
-                                trace!(
-                                    "Field #{} '{}' of {} was NOT initialized, skipping",
-                                    i.to_string().bright_cyan(),
-                                    sd.fields[i].name.bright_red(),
-                                    frame.shape.red()
-                                );
-                            }
-                        }
-
-                        // we'll also need to clean up if we're root
-                        if frame.istate.mode == FrameMode::Root {
-                            _root_guard = Some(Guard {
-                                ptr: frame.data.as_mut_byte_ptr(),
-                                layout: frame.shape.layout,
-                            });
-                        }
-                    }
-                }
-                Def::Enum(_ed) => {
-                    trace!(
-                        "{}",
-                        format!(
-                            "TODO: handle enum deallocation for {} at {:p}",
-                            frame.shape.yellow(),
-                            frame.data.as_byte_ptr()
-                        )
-                        .magenta()
-                    );
-
-                    // we'll also need to clean up if we're root
-                    if frame.istate.mode == FrameMode::Root {
-                        _root_guard = Some(Guard {
-                            ptr: frame.data.as_mut_byte_ptr(),
-                            layout: frame.shape.layout,
-                        });
-                    }
-                }
-                Def::Array(_)
-                | Def::Slice(_)
-                | Def::List(_)
-                | Def::Map(_)
-                | Def::SmartPointer(_)
-                | Def::Scalar(_)
-                | Def::Option(_) => {
-                    trace!(
-                        "Can drop all at once for shape {} (def variant: {:?}, frame mode {:?}) at {:p}",
-                        frame.shape.cyan(),
-                        frame.shape.def,
-                        frame.istate.mode.yellow(),
-                        frame.data.as_byte_ptr(),
-                    );
-
-                    if frame.is_fully_initialized() {
-                        unsafe { frame.drop_and_dealloc_if_needed() }
-                    } else {
-                        frame.dealloc_if_needed();
-                    }
-                }
-                _ => {}
-            }
-        }
-
-        // We might have some frames left over to deallocate for temporary allocations for keymap insertion etc.
-        let mut all_ids = self.istates.keys().copied().collect::<Vec<_>>();
-        for frame_id in all_ids.drain(..) {
-            let frame_istate = self.istates.remove(&frame_id).unwrap();
-
-            trace!(
-                "Checking leftover istate: id.shape={} id.ptr={:p} mode={:?}",
-                frame_id.shape.cyan(),
-                frame_id.ptr,
-                frame_istate.mode.yellow()
-            );
-            let mut frame = Frame::recompose(frame_id, frame_istate);
-
-            if frame.is_fully_initialized() {
-                trace!("It's fully initialized, we can drop it");
-                unsafe { frame.drop_and_dealloc_if_needed() };
-            } else if frame.istate.flags.contains(FrameFlags::ALLOCATED) {
-                trace!("Not initialized but allocated, let's free it");
-                frame.dealloc_if_needed();
-            }
+        // Every allocation we still own has a frame: the root, but also list elements,
+        // map keys etc. that didn't make it into their container. Anything else is
+        // stored in-place, and is cleaned up along with its parent.
+        loop {
+            let Some(id) = self
+                .istates
+                .iter()
+                .find(|(_id, istate)| istate.flags.contains(FrameFlags::ALLOCATED))
+                .map(|(id, _istate)| *id)
+            else {
+                break;
+            };
+            let istate = self.istates.remove(&id).unwrap();
+            let mut frame = Frame::recompose(id, istate);
+            self.deinit(&mut frame);
+            frame.dealloc_if_needed();
         }
     }
 }
-- 
2.43.0


From e93866fc73a568a84b527350dfa1b8ee5586f653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:11 +0000
Subject: [PATCH 10/41] fix: try_put_f64 stored truncated, saturated or wrapped
 integers

---
 facet-reflect/src/wip/put_f64.rs | 240 ++++++-------------------------
 1 file changed, 46 insertions(+), 194 deletions(-)

diff --git a/facet-reflect/src/wip/put_f64.rs b/facet-reflect/src/wip/put_f64.rs
index 0c0e05a..b8017e8 100644
--- a/facet-reflect/src/wip/put_f64.rs
+++ b/facet-reflect/src/wip/put_f64.rs
@@ -1,7 +1,7 @@
 use crate::{ReflectError, Wip};
 use core::num::{
-    NonZeroI8, NonZeroI16, NonZeroI32, NonZeroI64, NonZeroIsize, NonZeroU8, NonZeroU16, NonZeroU32,
-    NonZeroU64, NonZeroUsize,
+    NonZeroI8, NonZeroI16, NonZeroI32, NonZeroI64, NonZeroI128, NonZeroIsize, NonZeroU8,
+    NonZeroU16, NonZeroU32, NonZeroU64, NonZeroU128, NonZeroUsize,
 };
 use facet_core::{Def, ScalarAffinity};
 
@@ -43,98 +43,44 @@ impl Wip<'_> {
             }
         }
 
-        // Match on the concrete Rust type
-        if shape.is_type::<u8>() {
-            if (0.0..=u8::MAX as f64).contains(&number) {
-                self.put(number as u8)
-            } else {
-                Err(ReflectError::OperationFailed {
-                    shape,
-                    operation: "number out of range",
-                })
-            }
-        } else if shape.is_type::<u16>() {
-            if (0.0..=u16::MAX as f64).contains(&number) {
-                self.put(number as u16)
-            } else {
-                Err(ReflectError::OperationFailed {
-                    shape,
-                    operation: "number out of range",
-                })
-            }
-        } else if shape.is_type::<u32>() {
-            if (0.0..=u32::MAX as f64).contains(&number) {
-                self.put(number as u32)
-            } else {
-                Err(ReflectError::OperationFailed {
-                    shape,
-                    operation: "number out of range",
-                })
-            }
-        } else if shape.is_type::<u64>() {
-            if (0.0..=u64::MAX as f64).contains(&number) {
-                self.put(number as u64)
-            } else {
-                Err(ReflectError::OperationFailed {
-                    shape,
-                    operation: "number out of range",
-                })
-            }
-        } else if shape.is_type::<usize>() {
-            if (0.0..=usize::MAX as f64).contains(&number) {
-                self.put(number as usize)
-            } else {
-                Err(ReflectError::OperationFailed {
-                    shape,
-                    operation: "number out of range",
-                })
-            }
-        } else if shape.is_type::<i8>() {
-            if (i8::MIN as f64..=i8::MAX as f64).contains(&number) {
-                self.put(number as i8)
-            } else {
-                Err(ReflectError::OperationFailed {
-                    shape,
-                    operation: "number out of range",
-                })
-            }
-        } else if shape.is_type::<i16>() {
-            if (i16::MIN as f64..=i16::MAX as f64).contains(&number) {
-                self.put(number as i16)
-            } else {
-                Err(ReflectError::OperationFailed {
-                    shape,
-                    operation: "number out of range",
-                })
-            }
-        } else if shape.is_type::<i32>() {
-            if (i32::MIN as f64..=i32::MAX as f64).contains(&number) {
-                self.put(number as i32)
-            } else {
-                Err(ReflectError::OperationFailed {
-                    shape,
-                    operation: "number out of range",
-                })
-            }
-        } else if shape.is_type::<i64>() {
-            if (i64::MIN as f64..=i64::MAX as f64).contains(&number) {
-                self.put(number as i64)
-            } else {
-                Err(ReflectError::OperationFailed {
-                    shape,
-                    operation: "number out of range",
-                })
-            }
-        } else if shape.is_type::<isize>() {
-            if (isize::MIN as f64..=isize::MAX as f64).contains(&number) {
-                self.put(number as isize)
-            } else {
-                Err(ReflectError::OperationFailed {
-                    shape,
-                    operation: "number out of range",
-                })
-            }
-        } else if shape.is_type::<f32>() {
+        // Match on the concrete Rust type: integers only accept the numbers they can
+        // represent exactly
+        macro_rules! put_int {
+            ($($ty:ty),* ; $($nonzero:ty),*) => {
+                $(
+                    if shape.is_type::<$ty>() {
+                        return match exact_int(number).and_then(|n| <$ty>::try_from(n).ok()) {
+                            Some(value) => self.put(value),
+                            None => Err(ReflectError::OperationFailed {
+                                shape,
+                                operation: "number out of range",
+                            }),
+                        };
+                    }
+                )*
+                $(
+                    if shape.is_type::<$nonzero>() {
+                        return match exact_int(number)
+                            .and_then(|n| n.try_into().ok())
+                            .and_then(<$nonzero>::new)
+                        {
+                            Some(value) => self.put(value),
+                            None => Err(ReflectError::OperationFailed {
+                                shape,
+                                operation: "number out of range",
+                            }),
+                        };
+                    }
+                )*
+            };
+        }
+        put_int!(
+            u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize;
+            NonZeroU8, NonZeroU16, NonZeroU32, NonZeroU64, NonZeroU128, NonZeroUsize,
+            NonZeroI8, NonZeroI16, NonZeroI32, NonZeroI64, NonZeroI128, NonZeroIsize
+        );
+
+        if shape.is_type::<f32>() {
             if (f32::MIN as f64..=f32::MAX as f64).contains(&number) {
                 self.put(number as f32)
             } else {
@@ -145,106 +91,6 @@ impl Wip<'_> {
             }
         } else if shape.is_type::<f64>() {
             self.put(number)
-        } else if shape.is_type::<NonZeroU8>() {
-            if (1.0..=u8::MAX as f64).contains(&number) {
-                let value = NonZeroU8::new(number as u8).unwrap();
-                self.put(value)
-            } else {
-                Err(ReflectError::OperationFailed {
-                    shape,
-                    operation: "number out of range",
-                })
-            }
-        } else if shape.is_type::<NonZeroU16>() {
-            if (1.0..=u16::MAX as f64).contains(&number) {
-                let value = NonZeroU16::new(number as u16).unwrap();
-                self.put(value)
-            } else {
-                Err(ReflectError::OperationFailed {
-                    shape,
-                    operation: "number out of range",
-                })
-            }
-        } else if shape.is_type::<NonZeroU32>() {
-            if (1.0..=u32::MAX as f64).contains(&number) {
-                let value = NonZeroU32::new(number as u32).unwrap();
-                self.put(value)
-            } else {
-                Err(ReflectError::OperationFailed {
-                    shape,
-                    operation: "number out of range",
-                })
-            }
-        } else if shape.is_type::<NonZeroU64>() {
-            if (1.0..=u64::MAX as f64).contains(&number) {
-                let value = NonZeroU64::new(number as u64).unwrap();
-                self.put(value)
-            } else {
-                Err(ReflectError::OperationFailed {
-                    shape,
-                    operation: "number out of range",
-                })
-            }
-        } else if shape.is_type::<NonZeroUsize>() {
-            if (1.0..=usize::MAX as f64).contains(&number) {
-                let value = NonZeroUsize::new(number as usize).unwrap();
-                self.put(value)
-            } else {
-                Err(ReflectError::OperationFailed {
-                    shape,
-                    operation: "number out of range",
-                })
-            }
-        } else if shape.is_type::<NonZeroI8>() {
-            if (1.0..=i8::MAX as f64).contains(&number) {
-                let value = NonZeroI8::new(number as i8).unwrap();
-                self.put(value)
-            } else {
-                Err(ReflectError::OperationFailed {
-                    shape,
-                    operation: "number out of range",
-                })
-            }
-        } else if shape.is_type::<NonZeroI16>() {
-            if (1.0..=i16::MAX as f64).contains(&number) {
-                let value = NonZeroI16::new(number as i16).unwrap();
-                self.put(value)
-            } else {
-                Err(ReflectError::OperationFailed {
-                    shape,
-                    operation: "number out of range",
-                })
-            }
-        } else if shape.is_type::<NonZeroI32>() {
-            if (1.0..=i32::MAX as f64).contains(&number) {
-                let value = NonZeroI32::new(number as i32).unwrap();
-                self.put(value)
-            } else {
-                Err(ReflectError::OperationFailed {
-                    shape,
-                    operation: "number out of range",
-                })
-            }
-        } else if shape.is_type::<NonZeroI64>() {
-            if (1.0..=i64::MAX as f64).contains(&number) {
-                let value = NonZeroI64::new(number as i64).unwrap();
-                self.put(value)
-            } else {
-                Err(ReflectError::OperationFailed {
-                    shape,
-                    operation: "number out of range",
-                })
-            }
-        } else if shape.is_type::<NonZeroIsize>() {
-            if (1.0..=isize::MAX as f64).contains(&number) {
-                let value = NonZeroIsize::new(number as isize).unwrap();
-                self.put(value)
-            } else {
-                Err(ReflectError::OperationFailed {
-                    shape,
-                    operation: "number out of range",
-                })
-            }
         } else {
             Err(ReflectError::OperationFailed {
                 shape,
@@ -253,3 +99,9 @@ impl Wip<'_> {
         }
     }
 }
+
+/// Returns the integer a number stands for, if it is one (and fits)
+fn exact_int(number: f64) -> Option<i128> {
+    let int = number as i128;
+    (int != i128::MAX && int as f64 == number).then_some(int)
+}
-- 
2.43.0


From b90fd3b6d908d16f9f59594efb5ccaa1e9c0992f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:20 +0000
Subject: [PATCH 11/41] fix: JSON deserializer panicked on malformed input, and
 accepted or altered what isn't JSON

---
 facet-json/src/deserialize.rs       | 687 +++++++++++++++-------------
 facet-json/src/deserialize/error.rs |  16 +-
 2 files changed, 383 insertions(+), 320 deletions(-)

diff --git a/facet-json/src/deserialize.rs b/facet-json/src/deserialize.rs
index 44cb7e9..9d81882 100644
--- a/facet-json/src/deserialize.rs
+++ b/facet-json/src/deserialize.rs
@@ -1,9 +1,10 @@
-use facet_core::{Characteristic, Def, Facet, FieldAttribute, ScalarAffinity, ShapeAttribute};
+use facet_core::{Def, Facet, FieldAttribute, ScalarAffinity, ShapeAttribute};
 use facet_reflect::{HeapValue, Wip};
 use log::trace;
 
+use alloc::borrow::Cow;
 use alloc::format;
-use alloc::string::{String, ToString};
+use alloc::string::String;
 use alloc::vec::Vec;
 use owo_colors::OwoColorize;
 
@@ -65,6 +66,32 @@ pub fn from_slice_wip<'input, 'a>(
             return err!($kind)
         };
     }
+    // Unwraps the result of an operation on `wip` (which is gone if it failed)
+    macro_rules! reflect {
+        ($res:expr) => {
+            match $res {
+                Ok(it) => it,
+                Err(e) => {
+                    return Err(JsonParseErrorWithContext::new(
+                        JsonErrorKind::ReflectError(e),
+                        input,
+                        pos,
+                        String::from("?"),
+                    ));
+                }
+            }
+        };
+    }
+    // We have a complete value: there must be nothing but whitespace after it
+    macro_rules! finish {
+        () => {{
+            skip_whitespace(&mut pos, input);
+            if let Some(c) = input.get(pos).copied() {
+                bail!(JsonErrorKind::UnexpectedCharacter(c as char));
+            }
+            return Ok(reflect!(wip.build()));
+        }};
+    }
 
     /// Indicates why we are expecting a value in the parsing stack.
     #[derive(Debug, Clone, Copy, PartialEq, Eq)]
@@ -112,22 +139,14 @@ pub fn from_slice_wip<'input, 'a>(
     stack.push(Expect::Value(WhyValue::TopLevel));
 
     loop {
-        // skip over whitespace
-        while let Some(c) = input.get(pos).copied() {
-            match c {
-                b' ' | b'\t' | b'\n' | b'\r' => {
-                    pos += 1;
-                }
-                _ => break,
-            }
-        }
+        skip_whitespace(&mut pos, input);
 
         let frame_count = wip.frames_count();
         let expect = match stack.pop() {
             Some(expect) => expect,
             None => {
                 if frame_count == 1 {
-                    return Ok(wip.build().unwrap());
+                    finish!();
                 } else {
                     trace!("frame_count isn't 1, it's {}", frame_count);
                     bail!(JsonErrorKind::UnexpectedEof("frame_count isn't 1"));
@@ -136,8 +155,11 @@ pub fn from_slice_wip<'input, 'a>(
         };
         trace!("[{frame_count}] Expecting {:?}", expect.yellow());
 
-        let Some(c) = input.get(pos).copied() else {
-            bail!(JsonErrorKind::UnexpectedEof("no input at pos"));
+        let c = match input.get(pos).copied() {
+            Some(c) => c,
+            // popping an option doesn't take any input
+            None if expect == Expect::PopOption => b'\0',
+            None => bail!(JsonErrorKind::UnexpectedEof("no input at pos")),
         };
 
         let mut finished_value: Option<WhyValue> = None;
@@ -149,15 +171,26 @@ pub fn from_slice_wip<'input, 'a>(
                 finished_value = Some(WhyValue::ObjectValue);
             }
             Expect::Value(why) => {
-                if let Def::Option(_) = wip.shape().def {
-                    wip = wip.push_some().unwrap();
-                    stack.push(Expect::PopOption);
+                if why == WhyValue::ObjectKey && c != b'"' {
+                    bail!(JsonErrorKind::UnexpectedCharacter(c as char));
+                }
+
+                let is_option = matches!(wip.shape().def, Def::Option(_));
+                if c != b'n' {
+                    while let Def::Option(_) = wip.shape().def {
+                        wip = reflect!(wip.push_some());
+                        stack.push(Expect::PopOption);
+                    }
                 }
 
                 match c {
                     b'{' => {
                         trace!("Object starting");
+                        if !matches!(wip.shape().def, Def::Struct(_)) {
+                            bail!(JsonErrorKind::UnexpectedCharacter('{'));
+                        }
                         pos += 1;
+                        skip_whitespace(&mut pos, input);
                         let Some(c) = input.get(pos).copied() else {
                             bail!(JsonErrorKind::UnexpectedEof("nothing after {"));
                         };
@@ -178,12 +211,16 @@ pub fn from_slice_wip<'input, 'a>(
                         }
                     }
                     b'[' => {
+                        if !matches!(wip.shape().def, Def::List(_)) {
+                            bail!(JsonErrorKind::UnexpectedCharacter('['));
+                        }
                         pos += 1;
+                        skip_whitespace(&mut pos, input);
                         let Some(c) = input.get(pos).copied() else {
                             bail!(JsonErrorKind::UnexpectedEof("nothing after ["));
                         };
 
-                        wip = wip.begin_pushback().unwrap();
+                        wip = reflect!(wip.begin_pushback());
                         match c {
                             b']' => {
                                 // an array just closed, somewhere
@@ -195,64 +232,15 @@ pub fn from_slice_wip<'input, 'a>(
                                 // okay, next we expect an item and a separator (or the end of the array)
                                 stack.push(Expect::Separator(Separator::Comma(WhyComma::Array)));
                                 stack.push(Expect::Value(WhyValue::ArrayElement));
-                                wip = wip.push().unwrap();
+                                wip = reflect!(wip.push());
                                 continue; // we didn't finish a value so don't pop yet
                             }
                         }
                     }
                     b'"' => {
-                        pos += 1;
-                        let start = pos;
-                        // Our value is a string: collect bytes first
-                        let mut bytes = Vec::new();
-                        loop {
-                            let Some(c) = input.get(pos).copied() else {
-                                bail!(JsonErrorKind::UnexpectedEof("nothing after \""));
-                            };
-                            match c {
-                                b'"' => {
-                                    break;
-                                }
-                                b'\\' => {
-                                    // Handle escape sequences
-                                    if let Some(&next) = input.get(pos + 1) {
-                                        if bytes.is_empty() {
-                                            bytes.extend(&input[start..pos]);
-                                        }
-                                        bytes.push(next);
-                                        pos += 2;
-                                    } else {
-                                        bail!(JsonErrorKind::UnexpectedEof("nothing after \\"));
-                                    }
-                                }
-                                _ => {
-                                    if !bytes.is_empty() {
-                                        bytes.push(c);
-                                    }
-                                    pos += 1;
-                                }
-                            }
-                        }
-                        let end = pos;
-                        pos += 1;
-
-                        let value = if bytes.is_empty() {
-                            match core::str::from_utf8(&input[start..end]) {
-                                Ok(it) => alloc::borrow::Cow::Borrowed(it),
-                                Err(e) => bail!(JsonErrorKind::InvalidUtf8(format!(
-                                    "Invalid UTF-8 sequence: {}",
-                                    e
-                                ))),
-                            }
-                        } else {
-                            // Convert collected bytes to string at once
-                            match alloc::string::String::from_utf8(bytes) {
-                                Ok(it) => alloc::borrow::Cow::Owned(it),
-                                Err(e) => bail!(JsonErrorKind::InvalidUtf8(format!(
-                                    "Invalid UTF-8 sequence: {}",
-                                    e
-                                ))),
-                            }
+                        let value = match parse_string(&mut pos, input) {
+                            Ok(value) => value,
+                            Err(kind) => bail!(kind),
                         };
 
                         trace!(
@@ -266,9 +254,9 @@ pub fn from_slice_wip<'input, 'a>(
                             WhyValue::TopLevel | WhyValue::ArrayElement | WhyValue::ObjectValue => {
                                 // skip the string parse impl
                                 if wip.current_is_type::<String>() {
-                                    wip = wip.put::<String>(value.into_owned()).unwrap();
+                                    wip = reflect!(wip.put::<String>(value.into_owned()));
                                 } else {
-                                    wip = wip.parse(&value).unwrap();
+                                    wip = reflect!(wip.parse(&value));
                                 }
                                 finished_value = Some(why);
                             }
@@ -277,25 +265,33 @@ pub fn from_slice_wip<'input, 'a>(
                                 let shape = wip.shape();
 
                                 if let Def::Struct(struct_def) = shape.def {
-                                    let field = struct_def.fields.iter().find(|f| {
-                                        // Check original name
-                                        if f.name == value {
-                                            return true;
-                                        }
-
-                                        // Check rename attribute
-                                        f.attributes.iter().any(|attr| {
-                                            if let &FieldAttribute::Rename(rename) = attr {
-                                                rename == value
-                                            } else {
-                                                false
-                                            }
+                                    // The renamed name goes first: it might be the original
+                                    // name of another field
+                                    let field = struct_def
+                                        .fields
+                                        .iter()
+                                        .position(|f| {
+                                            f.attributes
+                                                .iter()
+                                                .find_map(|attr| match attr {
+                                                    &FieldAttribute::Rename(rename) => Some(rename),
+                                                    _ => None,
+                                                })
+                                                .unwrap_or(f.name)
+                                                == value
                                         })
-                                    });
-
-                                    if let Some(field) = field {
-                                        trace!("found field {:?}", field.blue());
-                                        wip = wip.field_named(field.name).unwrap();
+                                        .or_else(|| {
+                                            struct_def.fields.iter().position(|f| f.name == value)
+                                        });
+
+                                    if let Some(index) = field {
+                                        trace!("found field {:?}", index.blue());
+                                        if reflect!(wip.is_field_set(index)) {
+                                            bail!(JsonErrorKind::DuplicateField(
+                                                value.into_owned()
+                                            ));
+                                        }
+                                        wip = reflect!(wip.field(index));
                                     } else if shape.attributes.iter().any(|attr| {
                                         matches!(attr, ShapeAttribute::DenyUnknownFields)
                                     }) {
@@ -308,12 +304,7 @@ pub fn from_slice_wip<'input, 'a>(
                                             expect_colon,
                                             Some(Expect::Separator(Separator::Colon))
                                         ));
-                                        // skip over whitespace
-                                        while let Some(b' ' | b'\t' | b'\n' | b'\r') =
-                                            input.get(pos).copied()
-                                        {
-                                            pos += 1;
-                                        }
+                                        skip_whitespace(&mut pos, input);
                                         // skip over colon
                                         if let Some(b':') = input.get(pos) {
                                             pos += 1;
@@ -326,12 +317,7 @@ pub fn from_slice_wip<'input, 'a>(
                                                     .unwrap_or('\0')
                                             ));
                                         }
-                                        // skip over whitespace
-                                        while let Some(b' ' | b'\t' | b'\n' | b'\r') =
-                                            input.get(pos).copied()
-                                        {
-                                            pos += 1;
-                                        }
+                                        skip_whitespace(&mut pos, input);
                                         // pop Expect::Value
                                         let expect_value = stack.pop();
                                         assert!(matches!(
@@ -359,43 +345,45 @@ pub fn from_slice_wip<'input, 'a>(
                                         value.blue(),
                                         wip.shape()
                                     );
-                                    wip = wip.field_named(&value).expect("assuming only structs have a fixed set of fields (which is not true, cf. enums)");
+                                    wip = reflect!(wip.field_named(&value));
                                 }
                             }
                         }
                     }
                     b'0'..=b'9' | b'-' => {
-                        pos += 1;
-                        let start = pos - 1;
-                        while let Some(c) = input.get(pos) {
-                            match c {
-                                b'0'..=b'9' | b'.' => {
-                                    pos += 1;
-                                }
-                                _ => break,
-                            }
-                        }
-                        let number = &input[start..pos];
-                        let number = core::str::from_utf8(number).unwrap();
-                        let number = number.parse::<f64>().unwrap();
-                        trace!("Parsed {:?}", number.yellow());
-
-                        // Prefer try_put_f64 only if actually supported (can_put_f64)
-                        if wip.can_put_f64() {
-                            wip = wip.try_put_f64(number).unwrap();
-                        } else {
+                        let number = match parse_number(&mut pos, input) {
+                            Ok(number) => number,
+                            Err(kind) => bail!(kind),
+                        };
+                        trace!("Parsed {:?}", number.text.yellow());
+
+                        let shape = wip.shape();
+                        if !wip.can_put_f64() {
                             // If string affinity (eg, expecting a string, but got number)
-                            let shape = wip.shape();
                             if let Def::Scalar(sd) = shape.def {
                                 if let ScalarAffinity::String(_) = sd.affinity {
                                     if shape.is_type::<String>() {
-                                        let value = number.to_string();
-                                        bail!(JsonErrorKind::StringAsNumber(value));
+                                        bail!(JsonErrorKind::StringAsNumber(number.text.into()));
                                     }
                                 }
                             }
                             // fallback for other shape mismatch (todo! or parse error)
-                            bail!(JsonErrorKind::NumberOutOfRange(number));
+                            bail!(JsonErrorKind::NumberOutOfRange(number.value));
+                        }
+
+                        if shape.is_type::<f32>() {
+                            // (going through f64 would round twice)
+                            match number.text.parse::<f32>() {
+                                Ok(n) if n.is_finite() => wip = reflect!(wip.put(n)),
+                                _ => bail!(JsonErrorKind::NumberOutOfRange(number.value)),
+                            }
+                        } else if !number.value.is_finite() {
+                            bail!(JsonErrorKind::NumberOutOfRange(number.value));
+                        } else if number.is_integer && !shape.is_type::<f64>() {
+                            // (not all integers can be represented as f64)
+                            wip = reflect!(wip.parse(number.text));
+                        } else {
+                            wip = reflect!(wip.try_put_f64(number.value));
                         }
                         finished_value = Some(why);
                     }
@@ -407,7 +395,7 @@ pub fn from_slice_wip<'input, 'a>(
                             match shape.def {
                                 Def::Scalar(sd) => match sd.affinity {
                                     ScalarAffinity::Boolean(_) => {
-                                        wip = wip.put::<bool>(true).unwrap();
+                                        wip = reflect!(wip.put::<bool>(true));
                                     }
                                     _ => {
                                         bail!(JsonErrorKind::UnexpectedCharacter('t'));
@@ -424,7 +412,7 @@ pub fn from_slice_wip<'input, 'a>(
                             match shape.def {
                                 Def::Scalar(sd) => match sd.affinity {
                                     ScalarAffinity::Boolean(_) => {
-                                        wip = wip.put::<bool>(false).unwrap();
+                                        wip = reflect!(wip.put::<bool>(false));
                                     }
                                     _ => {
                                         bail!(JsonErrorKind::UnexpectedCharacter('f'));
@@ -442,11 +430,11 @@ pub fn from_slice_wip<'input, 'a>(
                     b'n' => {
                         // wow it's a null — probably
                         let slice_rest = &input[pos..];
-                        if slice_rest.starts_with(b"null") {
+                        if is_option && slice_rest.starts_with(b"null") {
                             pos += 4;
 
-                            // ok but we already pushed some! luckily wip has the method for us
-                            wip = wip.pop_some_push_none().unwrap();
+                            // the default value of an option is None
+                            wip = reflect!(wip.put_default());
                             finished_value = Some(why);
                         } else {
                             bail!(JsonErrorKind::UnexpectedCharacter('n'));
@@ -473,7 +461,7 @@ pub fn from_slice_wip<'input, 'a>(
                             WhyComma::Array => {
                                 stack.push(Expect::Separator(Separator::Comma(WhyComma::Array)));
                                 stack.push(Expect::Value(WhyValue::ArrayElement));
-                                wip = wip.push().unwrap();
+                                wip = reflect!(wip.push());
                             }
                             WhyComma::Object => {
                                 // looks like we're in for another round of object parsing
@@ -499,7 +487,7 @@ pub fn from_slice_wip<'input, 'a>(
                             WhyComma::Array => {
                                 // we finished the array, neat
                                 if frame_count > 1 {
-                                    wip = wip.pop().unwrap();
+                                    wip = reflect!(wip.pop());
                                 }
                             }
                             _ => {
@@ -531,7 +519,7 @@ pub fn from_slice_wip<'input, 'a>(
                     // Ensure all struct fields are set before popping
                     if let Def::Struct(sd) = wip.shape().def {
                         for i in 0..sd.fields.len() {
-                            if !wip.is_field_set(i).unwrap() {
+                            if !reflect!(wip.is_field_set(i)) {
                                 let missing_field: &'static str = sd.fields[i].name;
                                 if struct_has_default {
                                     has_missing_fields = true;
@@ -545,22 +533,14 @@ pub fn from_slice_wip<'input, 'a>(
                                     {
                                         match attr {
                                             Some(fun) => {
-                                                wip = wip
-                                                    .field(i)
-                                                    .unwrap()
-                                                    .put_from_fn(*fun)
-                                                    .unwrap()
-                                                    .pop()
-                                                    .unwrap();
+                                                wip = reflect!(wip.field(i));
+                                                wip = reflect!(wip.put_from_fn(*fun));
+                                                wip = reflect!(wip.pop());
                                             }
                                             None => {
-                                                wip = wip
-                                                    .field(i)
-                                                    .unwrap()
-                                                    .put_default()
-                                                    .unwrap()
-                                                    .pop()
-                                                    .unwrap();
+                                                wip = reflect!(wip.field(i));
+                                                wip = reflect!(wip.put_default());
+                                                wip = reflect!(wip.pop());
                                             }
                                         }
                                     } else {
@@ -573,18 +553,13 @@ pub fn from_slice_wip<'input, 'a>(
 
                     if has_missing_fields {
                         trace!("struct has missing fields but we have default");
-                        if !wip.shape().is(Characteristic::Default) {
-                            todo!(
-                                "Default struct has missing fields, the `default` impl but it does not implement Default"
-                            )
-                        }
-                        wip = wip.put_unset_fields_from_default().unwrap();
+                        wip = reflect!(wip.put_unset_fields_from_default());
                     }
 
                     if frame_count == 1 {
-                        return Ok(wip.build().unwrap());
+                        finish!();
                     } else {
-                        wip = wip.pop().unwrap();
+                        wip = reflect!(wip.pop());
                     }
                 }
             }
@@ -592,194 +567,270 @@ pub fn from_slice_wip<'input, 'a>(
     }
 }
 
-fn skip_over_value(pos: &mut usize, input: &[u8]) -> Result<(), JsonErrorKind> {
-    let bytes = input;
-
-    // Helper for skipping whitespace
-    let skip_whitespace = |pos: &mut usize| {
-        while *pos < bytes.len() {
-            match bytes[*pos] {
-                b' ' | b'\t' | b'\n' | b'\r' => *pos += 1,
-                _ => break,
-            }
-        }
-    };
-
-    skip_whitespace(pos);
-
-    if *pos >= bytes.len() {
-        return Err(JsonErrorKind::UnexpectedEof(
-            "while skipping over value: input ended unexpectedly at root",
-        ));
+/// Skips over whitespace
+fn skip_whitespace(pos: &mut usize, input: &[u8]) {
+    while let Some(b' ' | b'\t' | b'\n' | b'\r') = input.get(*pos) {
+        *pos += 1;
     }
+}
 
-    match bytes[*pos] {
-        b'{' => {
-            // Skip a full object, recursively
-            *pos += 1;
-            skip_whitespace(pos);
-            if *pos < bytes.len() && bytes[*pos] == b'}' {
-                *pos += 1;
-                return Ok(());
+/// Parses the string starting at `pos` (which must be at the opening quote)
+fn parse_string<'input>(
+    pos: &mut usize,
+    input: &'input [u8],
+) -> Result<Cow<'input, str>, JsonErrorKind> {
+    *pos += 1;
+    let start = *pos;
+    // Only used once we've seen an escape sequence: before that, we can borrow from the input
+    let mut owned: Option<Vec<u8>> = None;
+
+    loop {
+        let Some(c) = input.get(*pos).copied() else {
+            return Err(JsonErrorKind::UnexpectedEof("nothing after \""));
+        };
+        match c {
+            b'"' => break,
+            b'\\' => {
+                let bytes = owned.get_or_insert_with(|| input[start..*pos].to_vec());
+                let c = parse_escape(pos, input)?;
+                bytes.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes());
             }
-            loop {
-                // Skip key
-                skip_over_value(pos, input)?;
-                skip_whitespace(pos);
-                // Expect colon between key and value
-                if *pos >= bytes.len() || bytes[*pos] != b':' {
-                    return Err(JsonErrorKind::UnexpectedEof(
-                        "while skipping over value: object key with no colon or input ended",
-                    ));
+            // control characters must be escaped
+            0..=0x1f => return Err(JsonErrorKind::UnexpectedCharacter(c as char)),
+            _ => {
+                if let Some(bytes) = &mut owned {
+                    bytes.push(c);
                 }
                 *pos += 1;
-                skip_whitespace(pos);
-                // Skip value
-                skip_over_value(pos, input)?;
-                skip_whitespace(pos);
-                if *pos >= bytes.len() {
-                    return Err(JsonErrorKind::UnexpectedEof(
-                        "while skipping over value: object value with EOF after",
-                    ));
-                }
-                if bytes[*pos] == b'}' {
-                    *pos += 1;
-                    break;
-                } else if bytes[*pos] == b',' {
-                    *pos += 1;
-                    skip_whitespace(pos);
-                    continue;
-                } else {
-                    return Err(JsonErrorKind::UnexpectedCharacter(bytes[*pos] as char));
-                }
             }
         }
-        b'[' => {
-            // Skip a full array, recursively
-            *pos += 1;
-            skip_whitespace(pos);
-            if *pos < bytes.len() && bytes[*pos] == b']' {
-                *pos += 1;
-                return Ok(());
-            }
-            loop {
-                skip_over_value(pos, input)?;
-                skip_whitespace(pos);
-                if *pos >= bytes.len() {
-                    return Err(JsonErrorKind::UnexpectedEof(
-                        "while skipping over value: EOF inside array",
-                    ));
-                }
-                if bytes[*pos] == b']' {
-                    *pos += 1;
-                    break;
-                } else if bytes[*pos] == b',' {
-                    *pos += 1;
-                    skip_whitespace(pos);
-                    continue;
-                } else {
-                    return Err(JsonErrorKind::UnexpectedCharacter(bytes[*pos] as char));
+    }
+    let end = *pos;
+    *pos += 1;
+
+    match owned {
+        None => core::str::from_utf8(&input[start..end]).map(Cow::Borrowed),
+        Some(bytes) => String::from_utf8(bytes)
+            .map(Cow::Owned)
+            .map_err(|e| e.utf8_error()),
+    }
+    .map_err(|e| JsonErrorKind::InvalidUtf8(format!("Invalid UTF-8 sequence: {}", e)))
+}
+
+/// Parses the escape sequence starting at `pos` (which must be at the backslash)
+fn parse_escape(pos: &mut usize, input: &[u8]) -> Result<char, JsonErrorKind> {
+    let Some(c) = input.get(*pos + 1).copied() else {
+        return Err(JsonErrorKind::UnexpectedEof("nothing after \\"));
+    };
+    *pos += 2;
+    Ok(match c {
+        b'"' | b'\\' | b'/' => c as char,
+        b'b' => '\u{8}',
+        b'f' => '\u{c}',
+        b'n' => '\n',
+        b'r' => '\r',
+        b't' => '\t',
+        b'u' => {
+            let mut code = parse_hex4(pos, input)?;
+            if (0xd800..0xdc00).contains(&code) && input[*pos..].starts_with(b"\\u") {
+                // the first half of a surrogate pair
+                *pos += 2;
+                let low = parse_hex4(pos, input)?;
+                if !(0xdc00..0xe000).contains(&low) {
+                    return Err(JsonErrorKind::UnexpectedCharacter('u'));
                 }
+                code = 0x10000 + ((code - 0xd800) << 10) + (low - 0xdc00);
             }
+            // (that leaves lone surrogates)
+            char::from_u32(code).ok_or(JsonErrorKind::UnexpectedCharacter('u'))?
+        }
+        _ => return Err(JsonErrorKind::UnexpectedCharacter(c as char)),
+    })
+}
+
+/// Parses four hexadecimal digits
+fn parse_hex4(pos: &mut usize, input: &[u8]) -> Result<u32, JsonErrorKind> {
+    let mut code = 0;
+    for _ in 0..4 {
+        let Some(c) = input.get(*pos).copied() else {
+            return Err(JsonErrorKind::UnexpectedEof("nothing after \\u"));
+        };
+        let Some(digit) = (c as char).to_digit(16) else {
+            return Err(JsonErrorKind::UnexpectedCharacter(c as char));
+        };
+        code = code * 16 + digit;
+        *pos += 1;
+    }
+    Ok(code)
+}
+
+/// A number, as found in the input
+struct Number<'input> {
+    text: &'input str,
+    value: f64,
+    /// No fraction or exponent
+    is_integer: bool,
+}
+
+/// Parses a number: -?(0|[1-9]\d*)(\.\d+)?([eE][+-]?\d+)?
+fn parse_number<'input>(
+    pos: &mut usize,
+    input: &'input [u8],
+) -> Result<Number<'input>, JsonErrorKind> {
+    let start = *pos;
+    let mut is_integer = true;
+
+    if let Some(b'-') = input.get(*pos) {
+        *pos += 1;
+    }
+    if let Some(b'0') = input.get(*pos) {
+        *pos += 1;
+        // no leading zeroes
+        if let Some(c @ b'0'..=b'9') = input.get(*pos).copied() {
+            return Err(JsonErrorKind::UnexpectedCharacter(c as char));
         }
-        b'"' => {
-            // Skip a string, with escape processing
+    } else {
+        skip_digits(pos, input)?;
+    }
+    if let Some(b'.') = input.get(*pos) {
+        is_integer = false;
+        *pos += 1;
+        skip_digits(pos, input)?;
+    }
+    if let Some(b'e' | b'E') = input.get(*pos) {
+        is_integer = false;
+        *pos += 1;
+        if let Some(b'+' | b'-') = input.get(*pos) {
             *pos += 1;
-            while *pos < bytes.len() {
-                match bytes[*pos] {
-                    b'\\' => {
-                        // Could have EOF after backslash
-                        if *pos + 1 >= bytes.len() {
-                            return Err(JsonErrorKind::UnexpectedEof(
-                                "while skipping over value: EOF after backslash in string",
-                            ));
-                        }
-                        *pos += 2; // Skip backslash and the next character (escaped)
-                    }
-                    b'"' => {
-                        *pos += 1;
-                        break;
-                    }
-                    _ => {
-                        *pos += 1;
-                    }
-                }
-            }
-            if *pos > bytes.len() {
+        }
+        skip_digits(pos, input)?;
+    }
+
+    let text = core::str::from_utf8(&input[start..*pos])
+        .map_err(|e| JsonErrorKind::InvalidUtf8(format!("Invalid UTF-8 sequence: {}", e)))?;
+    let value = text
+        .parse()
+        .map_err(|_| JsonErrorKind::UnexpectedCharacter(input[start] as char))?;
+    if text == "-0" && is_integer {
+        // unsigned integers don't parse from that
+        is_integer = false;
+    }
+    Ok(Number {
+        text,
+        value,
+        is_integer,
+    })
+}
+
+/// Skips over one or more digits
+fn skip_digits(pos: &mut usize, input: &[u8]) -> Result<(), JsonErrorKind> {
+    match input.get(*pos).copied() {
+        Some(b'0'..=b'9') => {}
+        Some(c) => return Err(JsonErrorKind::UnexpectedCharacter(c as char)),
+        None => return Err(JsonErrorKind::UnexpectedEof("number without digits")),
+    }
+    while let Some(b'0'..=b'9') = input.get(*pos) {
+        *pos += 1;
+    }
+    Ok(())
+}
+
+/// Skips over a value of any kind. This isn't recursive, so that the nesting is only limited
+/// by the memory available.
+fn skip_over_value(pos: &mut usize, input: &[u8]) -> Result<(), JsonErrorKind> {
+    // The closing brackets we're expecting
+    let mut closing: Vec<u8> = Vec::new();
+
+    // Expects an object key, and the colon that follows
+    fn skip_key(pos: &mut usize, input: &[u8]) -> Result<(), JsonErrorKind> {
+        skip_whitespace(pos, input);
+        match input.get(*pos).copied() {
+            Some(b'"') => parse_string(pos, input)?,
+            Some(c) => return Err(JsonErrorKind::UnexpectedCharacter(c as char)),
+            None => {
                 return Err(JsonErrorKind::UnexpectedEof(
-                    "while skipping over value: string ended unexpectedly",
+                    "while skipping over value: no object key",
                 ));
             }
-        }
-        b't' => {
-            // Expect "true"
-            if bytes.len() >= *pos + 4 && &bytes[*pos..*pos + 4] == b"true" {
-                *pos += 4;
-            } else {
-                return Err(JsonErrorKind::UnexpectedCharacter('t'));
-            }
-        }
-        b'f' => {
-            // Expect "false"
-            if bytes.len() >= *pos + 5 && &bytes[*pos..*pos + 5] == b"false" {
-                *pos += 5;
-            } else {
-                return Err(JsonErrorKind::UnexpectedCharacter('f'));
-            }
-        }
-        b'n' => {
-            // Expect "null"
-            if bytes.len() >= *pos + 4 && &bytes[*pos..*pos + 4] == b"null" {
-                *pos += 4;
-            } else {
-                return Err(JsonErrorKind::UnexpectedCharacter('n'));
+        };
+        skip_whitespace(pos, input);
+        match input.get(*pos).copied() {
+            Some(b':') => *pos += 1,
+            Some(c) => return Err(JsonErrorKind::UnexpectedCharacter(c as char)),
+            None => {
+                return Err(JsonErrorKind::UnexpectedEof(
+                    "while skipping over value: object key with no colon",
+                ));
             }
         }
-        b'-' | b'0'..=b'9' => {
-            // Skip a number: -?\d+(\.\d+)?([eE][+-]?\d+)?
-            let start = *pos;
-            if bytes[*pos] == b'-' {
-                *pos += 1;
-            }
-            if *pos < bytes.len() && bytes[*pos] == b'0' {
+        Ok(())
+    }
+
+    'value: loop {
+        skip_whitespace(pos, input);
+        let Some(c) = input.get(*pos).copied() else {
+            return Err(JsonErrorKind::UnexpectedEof(
+                "while skipping over value: input ended unexpectedly",
+            ));
+        };
+
+        match c {
+            b'{' | b'[' => {
                 *pos += 1;
-            } else {
-                while *pos < bytes.len() && (bytes[*pos] as char).is_ascii_digit() {
+                skip_whitespace(pos, input);
+                let close = c + 2; // ASCII for the matching bracket
+                if input.get(*pos) == Some(&close) {
                     *pos += 1;
+                } else {
+                    closing.push(close);
+                    if c == b'{' {
+                        skip_key(pos, input)?;
+                    }
+                    continue 'value;
                 }
             }
-            if *pos < bytes.len() && bytes[*pos] == b'.' {
-                *pos += 1;
-                let mut has_digit = false;
-                while *pos < bytes.len() && (bytes[*pos] as char).is_ascii_digit() {
-                    *pos += 1;
-                    has_digit = true;
-                }
-                if !has_digit {
-                    return Err(JsonErrorKind::UnexpectedCharacter('.'));
-                }
+            b'"' => {
+                parse_string(pos, input)?;
             }
-            if *pos < bytes.len() && (bytes[*pos] == b'e' || bytes[*pos] == b'E') {
-                *pos += 1;
-                if *pos < bytes.len() && (bytes[*pos] == b'+' || bytes[*pos] == b'-') {
+            b'-' | b'0'..=b'9' => {
+                parse_number(pos, input)?;
+            }
+            _ => {
+                let Some(literal) = ["true", "false", "null"]
+                    .iter()
+                    .find(|l| input[*pos..].starts_with(l.as_bytes()))
+                else {
+                    return Err(JsonErrorKind::UnexpectedCharacter(c as char));
+                };
+                *pos += literal.len();
+            }
+        }
+
+        // We just skipped over a value: see what it's part of
+        loop {
+            let Some(close) = closing.last().copied() else {
+                return Ok(());
+            };
+            skip_whitespace(pos, input);
+            match input.get(*pos).copied() {
+                Some(b',') => {
                     *pos += 1;
+                    if close == b'}' {
+                        skip_key(pos, input)?;
+                    }
+                    continue 'value;
                 }
-                let mut has_digit = false;
-                while *pos < bytes.len() && (bytes[*pos] as char).is_ascii_digit() {
+                Some(c) if c == close => {
                     *pos += 1;
-                    has_digit = true;
+                    closing.pop();
                 }
-                if !has_digit {
-                    return Err(JsonErrorKind::UnexpectedCharacter('e'));
+                Some(c) => return Err(JsonErrorKind::UnexpectedCharacter(c as char)),
+                None => {
+                    return Err(JsonErrorKind::UnexpectedEof(
+                        "while skipping over value: input ended inside an object or array",
+                    ));
                 }
             }
-            if *pos == start {
-                return Err(JsonErrorKind::UnexpectedCharacter(bytes[start] as char));
-            }
-        }
-        _ => {
-            return Err(JsonErrorKind::UnexpectedCharacter(bytes[*pos] as char));
         }
     }
-    Ok(())
 }
diff --git a/facet-json/src/deserialize/error.rs b/facet-json/src/deserialize/error.rs
index bb5b994..851c0b1 100644
--- a/facet-json/src/deserialize/error.rs
+++ b/facet-json/src/deserialize/error.rs
@@ -3,6 +3,8 @@ use alloc::format;
 #[cfg(feature = "alloc")]
 use alloc::string::String;
 
+use facet_reflect::ReflectError;
+
 #[cfg(feature = "rich-diagnostics")]
 use ariadne::{Color, Config, IndexType, Label, Report, ReportKind, Source};
 #[cfg(feature = "rich-diagnostics")]
@@ -44,6 +46,8 @@ impl<'input> JsonParseErrorWithContext<'input> {
             JsonErrorKind::NumberOutOfRange(n) => format!("Number out of range: {}", n),
             JsonErrorKind::StringAsNumber(s) => format!("Expected a string but got number: {}", s),
             JsonErrorKind::UnknownField(f) => format!("Unknown field: {}", f),
+            JsonErrorKind::DuplicateField(f) => format!("Duplicate field: {}", f),
+            JsonErrorKind::ReflectError(e) => format!("Could not build the value: {}", e),
             JsonErrorKind::InvalidUtf8(e) => format!("Invalid UTF-8 encoding: {}", e),
         }
     }
@@ -64,6 +68,10 @@ pub enum JsonErrorKind {
     StringAsNumber(String),
     /// An unexpected field name was encountered in the input.
     UnknownField(String),
+    /// The same field was found several times in the input.
+    DuplicateField(String),
+    /// The input doesn't fit the type being deserialized.
+    ReflectError(ReflectError),
     /// A string that could not be built into valid UTF-8 Unicode
     InvalidUtf8(String),
 }
@@ -91,8 +99,12 @@ impl core::fmt::Display for JsonParseErrorWithContext<'_> {
         let source_id = "json";
 
         let (span_start, span_end) = match &self.kind {
-            JsonErrorKind::StringAsNumber(s) => (self.pos - s.len(), self.pos),
-            JsonErrorKind::UnknownField(f) => (self.pos - f.len() - 1, self.pos - 1),
+            JsonErrorKind::StringAsNumber(s) => (self.pos.saturating_sub(s.len()), self.pos),
+            // (what's in the input might be shorter: the length is that of the unescaped name)
+            JsonErrorKind::UnknownField(f) | JsonErrorKind::DuplicateField(f) => (
+                self.pos.saturating_sub(f.len() + 1),
+                self.pos.saturating_sub(1),
+            ),
             _ => {
                 let span_end = if self.pos < self.input.len() {
                     self.pos + 1
-- 
2.43.0


From 0d9ee8c23b492248e2efb2a27b5299492024fb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:20 +0000
Subject: [PATCH 12/41] fix: JSON serializer wrote NaN and infinities as is,
 didn't escape map keys, and lost the field names of struct variants

---
 facet-json/src/serialize.rs | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/facet-json/src/serialize.rs b/facet-json/src/serialize.rs
index 3204072..4d35f65 100644
--- a/facet-json/src/serialize.rs
+++ b/facet-json/src/serialize.rs
@@ -1,5 +1,5 @@
 use core::num::NonZero;
-use facet_core::{Def, Facet, FieldAttribute};
+use facet_core::{Def, Facet, FieldAttribute, StructKind};
 use facet_reflect::Peek;
 use std::io::{self, Write};
 
@@ -128,10 +128,20 @@ fn serialize_scalar<W: Write>(peek: &Peek<'_>, writer: &mut W) -> io::Result<()>
     // Float types
     else if peek.shape().is_type::<f32>() {
         let value = peek.get::<f32>().unwrap();
-        write!(writer, "{}", value)
+        if value.is_finite() {
+            write!(writer, "{}", value)
+        } else {
+            // There's no such number in JSON
+            write!(writer, "null")
+        }
     } else if peek.shape().is_type::<f64>() {
         let value = peek.get::<f64>().unwrap();
-        write!(writer, "{}", value)
+        if value.is_finite() {
+            write!(writer, "{}", value)
+        } else {
+            // There's no such number in JSON
+            write!(writer, "null")
+        }
     } else {
         Err(io::Error::new(
             io::ErrorKind::Other,
@@ -228,7 +238,7 @@ fn serialize_map<W: Write>(peek: &Peek<'_>, writer: &mut W) -> io::Result<()> {
                     write_json_string(writer, key_str)?;
                 } else {
                     // For other scalar types, use their Display implementation
-                    write!(writer, "\"{}\"", key)?;
+                    write_json_string(writer, &format!("{}", key))?;
                 }
             }
             _ => {
@@ -269,20 +279,16 @@ fn serialize_enum<W: Write>(peek: &Peek<'_>, writer: &mut W) -> io::Result<()> {
         write_json_string(writer, variant_name)?;
         write!(writer, ":")?;
 
+        let is_struct = variant.data.kind == StructKind::Struct;
+
         // If it's a single-field tuple variant, output just the value
-        if variant.data.fields.len() == 1 {
+        if variant.data.fields.len() == 1 && !is_struct {
             let field = enum_peek.field(0).ok_or_else(|| {
                 io::Error::new(io::ErrorKind::Other, "Failed to access enum field")
             })?;
             serialize(&field, writer)?;
         } else {
             // Multi-field variant - output as an array or object depending on variant type
-            let is_struct = variant
-                .data
-                .fields
-                .iter()
-                .any(|f| !f.name.starts_with("__"));
-
             if is_struct {
                 // Struct variant - output as an object
                 write!(writer, "{{")?;
-- 
2.43.0


From 93dccef9b0700225668d941e30d0670fa40ac01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:21 +0000
Subject: [PATCH 13/41] fix: u128 numbers above i128::MAX were refused

---
 facet-reflect/src/wip/put_f64.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/facet-reflect/src/wip/put_f64.rs b/facet-reflect/src/wip/put_f64.rs
index b8017e8..baadd54 100644
--- a/facet-reflect/src/wip/put_f64.rs
+++ b/facet-reflect/src/wip/put_f64.rs
@@ -46,10 +46,10 @@ impl Wip<'_> {
         // Match on the concrete Rust type: integers only accept the numbers they can
         // represent exactly
         macro_rules! put_int {
-            ($($ty:ty),* ; $($nonzero:ty),*) => {
+            ($exact:ident: $($ty:ty),* ; $($nonzero:ty),*) => {
                 $(
                     if shape.is_type::<$ty>() {
-                        return match exact_int(number).and_then(|n| <$ty>::try_from(n).ok()) {
+                        return match $exact(number).and_then(|n| <$ty>::try_from(n).ok()) {
                             Some(value) => self.put(value),
                             None => Err(ReflectError::OperationFailed {
                                 shape,
@@ -60,7 +60,7 @@ impl Wip<'_> {
                 )*
                 $(
                     if shape.is_type::<$nonzero>() {
-                        return match exact_int(number)
+                        return match $exact(number)
                             .and_then(|n| n.try_into().ok())
                             .and_then(<$nonzero>::new)
                         {
@@ -75,10 +75,12 @@ impl Wip<'_> {
             };
         }
         put_int!(
-            u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize;
-            NonZeroU8, NonZeroU16, NonZeroU32, NonZeroU64, NonZeroU128, NonZeroUsize,
+            exact_int:
+            u8, u16, u32, u64, usize, i8, i16, i32, i64, i128, isize;
+            NonZeroU8, NonZeroU16, NonZeroU32, NonZeroU64, NonZeroUsize,
             NonZeroI8, NonZeroI16, NonZeroI32, NonZeroI64, NonZeroI128, NonZeroIsize
         );
+        put_int!(exact_uint: u128; NonZeroU128);
 
         if shape.is_type::<f32>() {
             if (f32::MIN as f64..=f32::MAX as f64).contains(&number) {
@@ -105,3 +107,9 @@ fn exact_int(number: f64) -> Option<i128> {
     let int = number as i128;
     (int != i128::MAX && int as f64 == number).then_some(int)
 }
+
+/// Same, for the non-negative ones
+fn exact_uint(number: f64) -> Option<u128> {
+    let int = number as u128;
+    (int != u128::MAX && int as f64 == number).then_some(int)
+}
-- 
2.43.0


From 7e8b53c62f396ed3ac711e24753d9834aaff42bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:21 +0000
Subject: [PATCH 14/41] fix: NonZero<T> used the vtable of T, so that it could
 be built as zero

---
 facet-core/src/impls_core/scalar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/facet-core/src/impls_core/scalar.rs b/facet-core/src/impls_core/scalar.rs
index 8ac1c2e..1c1d28b 100644
--- a/facet-core/src/impls_core/scalar.rs
+++ b/facet-core/src/impls_core/scalar.rs
@@ -163,7 +163,7 @@ macro_rules! impl_facet_for_integer {
                     .def(Def::Scalar(
                         ScalarDef::builder().affinity($nz_affinity).build(),
                     ))
-                    .vtable(value_vtable!($type, |f, _opts| write!(
+                    .vtable(value_vtable!(NonZero<$type>, |f, _opts| write!(
                         f,
                         "core::num::NonZero<{}>",
                         stringify!($type)
-- 
2.43.0


From 2ee99a3b35695301eab9fdb62421cc86b689ad1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:51 +0000
Subject: [PATCH 15/41] fix: #[facet(rename)] kept the escapes of its string
 literal, escaped once more

---
 facet-derive-emit/src/lib.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/facet-derive-emit/src/lib.rs b/facet-derive-emit/src/lib.rs
index 27418d6..bd340f1 100644
--- a/facet-derive-emit/src/lib.rs
+++ b/facet-derive-emit/src/lib.rs
@@ -169,9 +169,16 @@ pub(crate) fn gen_struct_field(
                     if let Some(equal_pos) = attr_str.find('=') {
                         let key = attr_str[..equal_pos].trim();
                         if key == "rename" {
-                            let value = attr_str[equal_pos + 1..].trim().trim_matches('"');
+                            let value = attr_str[equal_pos + 1..].trim();
+                            // A string literal is one already: unquoting it and quoting it
+                            // again would have to deal with its escapes.
+                            let value = if value.ends_with(['"', '#']) {
+                                value.to_string()
+                            } else {
+                                format!("{value:?}")
+                            };
                             attribute_list
-                                .push(format!(r#"::facet::FieldAttribute::Rename({:?})"#, value));
+                                .push(format!("::facet::FieldAttribute::Rename({value})"));
                         } else {
                             attribute_list.push(format!(
                                 r#"::facet::FieldAttribute::Arbitrary({:?})"#,
-- 
2.43.0


From baa88f21cc40478e221b1e8deafa33b7a5cdb952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:53 +0000
Subject: [PATCH 16/41] fix: renamed fields of struct variants were serialized
 to JSON under their original name

---
 facet-json/src/serialize.rs | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/facet-json/src/serialize.rs b/facet-json/src/serialize.rs
index 4d35f65..0489b3a 100644
--- a/facet-json/src/serialize.rs
+++ b/facet-json/src/serialize.rs
@@ -1,5 +1,5 @@
 use core::num::NonZero;
-use facet_core::{Def, Facet, FieldAttribute, StructKind};
+use facet_core::{Def, Facet, Field, FieldAttribute, StructKind};
 use facet_reflect::Peek;
 use std::io::{self, Write};
 
@@ -150,6 +150,21 @@ fn serialize_scalar<W: Write>(peek: &Peek<'_>, writer: &mut W) -> io::Result<()>
     }
 }
 
+/// The name a field has in JSON: the one it is renamed to, if any
+fn serialized_name(field: &Field) -> &'static str {
+    field
+        .attributes
+        .iter()
+        .find_map(|attr| {
+            if let FieldAttribute::Rename(name) = attr {
+                Some(*name)
+            } else {
+                None
+            }
+        })
+        .unwrap_or(field.name)
+}
+
 /// Serializes a struct to JSON
 fn serialize_struct<W: Write>(peek: &Peek<'_>, writer: &mut W) -> io::Result<()> {
     let struct_peek = peek
@@ -165,18 +180,7 @@ fn serialize_struct<W: Write>(peek: &Peek<'_>, writer: &mut W) -> io::Result<()>
         }
         first = false;
 
-        // Check for rename attribute
-        let field_name = field
-            .attributes
-            .iter()
-            .find_map(|attr| {
-                if let FieldAttribute::Rename(name) = attr {
-                    Some(*name)
-                } else {
-                    None
-                }
-            })
-            .unwrap_or(field.name);
+        let field_name = serialized_name(field);
 
         // Write field name
         write_json_string(writer, field_name)?;
@@ -301,7 +305,7 @@ fn serialize_enum<W: Write>(peek: &Peek<'_>, writer: &mut W) -> io::Result<()> {
                             format!("Failed to access enum field {}", i),
                         )
                     })?;
-                    let field_name = variant.data.fields[i].name;
+                    let field_name = serialized_name(&variant.data.fields[i]);
 
                     if !first {
                         write!(writer, ",")?;
-- 
2.43.0


From a438900760fff382e1d73e4e9e0698cf669bc3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:07 +0000
Subject: [PATCH 17/41] fix: MessagePack signed integers were refused, or read
 wrong

---
 facet-msgpack/src/from_msgpack.rs | 99 ++++++++++++++++---------------
 1 file changed, 50 insertions(+), 49 deletions(-)

diff --git a/facet-msgpack/src/from_msgpack.rs b/facet-msgpack/src/from_msgpack.rs
index 33a6c37..bb0f8a8 100644
--- a/facet-msgpack/src/from_msgpack.rs
+++ b/facet-msgpack/src/from_msgpack.rs
@@ -136,33 +136,44 @@ impl<'input> Decoder<'input> {
         Ok(value)
     }
 
-    /// Decodes a MessagePack-encoded unsigned 64-bit integer.
+    /// Decodes a 64-bit unsigned integer in big-endian byte order.
+    /// This is a low-level method used by other decoders.
+    fn decode_be_u64(&mut self) -> Result<u64, DecodeError> {
+        if self.offset + 8 > self.input.len() {
+            return Err(DecodeError::InsufficientData);
+        }
+        let value =
+            u64::from_be_bytes(self.input[self.offset..self.offset + 8].try_into().unwrap());
+        self.offset += 8;
+        Ok(value)
+    }
+
+    /// Decodes a MessagePack-encoded integer into any integer type, whichever format
+    /// it was written in, as long as its value fits.
     /// Handles the following MessagePack types:
     /// - positive fixint (0x00 - 0x7f): single-byte positive integer
-    /// - uint8 (0xcc): 8-bit unsigned integer
-    /// - uint16 (0xcd): 16-bit unsigned integer (big-endian)
-    /// - uint32 (0xce): 32-bit unsigned integer (big-endian)
-    /// - uint64 (0xcf): 64-bit unsigned integer (big-endian)
+    /// - negative fixint (0xe0 - 0xff): single-byte negative integer
+    /// - uint8 (0xcc), uint16 (0xcd), uint32 (0xce), uint64 (0xcf): unsigned integers (big-endian)
+    /// - int8 (0xd0), int16 (0xd1), int32 (0xd2), int64 (0xd3): signed integers (big-endian)
     ///
     /// Ref: <https://github.com/msgpack/msgpack/blob/master/spec.md#int-format-family>
-    fn decode_u64(&mut self) -> Result<u64, DecodeError> {
-        match self.decode_u8()? {
-            MSGPACK_UINT8 => Ok(self.decode_u8()? as u64),
-            MSGPACK_UINT16 => Ok(self.decode_u16()? as u64),
-            MSGPACK_UINT32 => Ok(self.decode_u32()? as u64),
-            MSGPACK_UINT64 => {
-                if self.offset + 8 > self.input.len() {
-                    return Err(DecodeError::InsufficientData);
-                }
-                let value = u64::from_be_bytes(
-                    self.input[self.offset..self.offset + 8].try_into().unwrap(),
-                );
-                self.offset += 8;
-                Ok(value)
+    fn decode_int<T: TryFrom<i128>>(&mut self) -> Result<T, DecodeError> {
+        let value = match self.decode_u8()? {
+            prefix @ MSGPACK_POSFIXINT_MIN..=MSGPACK_POSFIXINT_MAX => prefix as i128,
+            MSGPACK_UINT8 => self.decode_u8()? as i128,
+            MSGPACK_UINT16 => self.decode_u16()? as i128,
+            MSGPACK_UINT32 => self.decode_u32()? as i128,
+            MSGPACK_UINT64 => self.decode_be_u64()? as i128,
+            MSGPACK_INT8 => self.decode_u8()? as i8 as i128,
+            MSGPACK_INT16 => self.decode_u16()? as i16 as i128,
+            MSGPACK_INT32 => self.decode_u32()? as i32 as i128,
+            MSGPACK_INT64 => self.decode_be_u64()? as i64 as i128,
+            prefix if (prefix as i8) >= MSGPACK_NEGFIXINT_MIN && (prefix as i8) < 0 => {
+                prefix as i8 as i128
             }
-            prefix @ MSGPACK_POSFIXINT_MIN..=MSGPACK_POSFIXINT_MAX => Ok(prefix as u64),
-            _ => Err(DecodeError::UnexpectedType),
-        }
+            _ => return Err(DecodeError::UnexpectedType),
+        };
+        T::try_from(value).map_err(|_| DecodeError::IntegerOverflow)
     }
 
     /// Decodes a MessagePack-encoded string.
@@ -410,39 +421,29 @@ impl<'input> Decoder<'input> {
                     let s = self.decode_string()?;
                     wip.put(s).unwrap()
                 } else if shape.is_type::<u64>() {
-                    let n = self.decode_u64()?;
+                    let n: u64 = self.decode_int()?;
                     wip.put(n).unwrap()
                 } else if shape.is_type::<u32>() {
-                    let n = self.decode_u64()?;
-                    if n > u32::MAX as u64 {
-                        return Err(DecodeError::IntegerOverflow);
-                    }
-                    wip.put(n as u32).unwrap()
+                    let n: u32 = self.decode_int()?;
+                    wip.put(n).unwrap()
                 } else if shape.is_type::<u16>() {
-                    let n = self.decode_u64()?;
-                    if n > u16::MAX as u64 {
-                        return Err(DecodeError::IntegerOverflow);
-                    }
-                    wip.put(n as u16).unwrap()
+                    let n: u16 = self.decode_int()?;
+                    wip.put(n).unwrap()
                 } else if shape.is_type::<u8>() {
-                    let n = self.decode_u64()?;
-                    if n > u8::MAX as u64 {
-                        return Err(DecodeError::IntegerOverflow);
-                    }
-                    wip.put(n as u8).unwrap()
+                    let n: u8 = self.decode_int()?;
+                    wip.put(n).unwrap()
                 } else if shape.is_type::<i64>() {
-                    // This is a simplification - need to implement proper int decoding
-                    let n = self.decode_u64()?;
-                    if n > i64::MAX as u64 {
-                        return Err(DecodeError::IntegerOverflow);
-                    }
-                    wip.put(n as i64).unwrap()
+                    let n: i64 = self.decode_int()?;
+                    wip.put(n).unwrap()
                 } else if shape.is_type::<i32>() {
-                    let n = self.decode_u64()?;
-                    if n > i32::MAX as u64 {
-                        return Err(DecodeError::IntegerOverflow);
-                    }
-                    wip.put(n as i32).unwrap()
+                    let n: i32 = self.decode_int()?;
+                    wip.put(n).unwrap()
+                } else if shape.is_type::<i16>() {
+                    let n: i16 = self.decode_int()?;
+                    wip.put(n).unwrap()
+                } else if shape.is_type::<i8>() {
+                    let n: i8 = self.decode_int()?;
+                    wip.put(n).unwrap()
                 } else if shape.is_type::<bool>() {
                     let b = self.decode_bool()?;
                     wip.put(b).unwrap()
-- 
2.43.0


From 0896933641c00e31d8473d08e464db8e4c55a586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:07 +0000
Subject: [PATCH 18/41] fix: skipping MessagePack values panicked, overran the
 input, or refused valid formats

---
 facet-msgpack/src/from_msgpack.rs | 168 ++++++++----------------------
 1 file changed, 44 insertions(+), 124 deletions(-)

diff --git a/facet-msgpack/src/from_msgpack.rs b/facet-msgpack/src/from_msgpack.rs
index bb0f8a8..98361fd 100644
--- a/facet-msgpack/src/from_msgpack.rs
+++ b/facet-msgpack/src/from_msgpack.rs
@@ -282,132 +282,52 @@ impl<'input> Decoder<'input> {
     /// Skips a MessagePack value of any type.
     /// This is used when encountering unknown field names in a struct.
     fn skip_value(&mut self) -> Result<(), DecodeError> {
-        let prefix = self.decode_u8()?;
-
-        match prefix {
-            // String formats
-            prefix @ MSGPACK_FIXSTR_MIN..=MSGPACK_FIXSTR_MAX => {
-                let len = (prefix & 0x1f) as usize;
-                if self.offset + len > self.input.len() {
-                    return Err(DecodeError::InsufficientData);
-                }
-                self.offset += len;
-                Ok(())
-            }
-            MSGPACK_STR8 => {
-                let len = self.decode_u8()? as usize;
-                if self.offset + len > self.input.len() {
-                    return Err(DecodeError::InsufficientData);
-                }
-                self.offset += len;
-                Ok(())
-            }
-            MSGPACK_STR16 => {
-                let len = self.decode_u16()? as usize;
-                if self.offset + len > self.input.len() {
-                    return Err(DecodeError::InsufficientData);
-                }
-                self.offset += len;
-                Ok(())
-            }
-            MSGPACK_STR32 => {
-                let len = self.decode_u32()? as usize;
-                if self.offset + len > self.input.len() {
-                    return Err(DecodeError::InsufficientData);
-                }
-                self.offset += len;
-                Ok(())
-            }
-
-            // Integer formats
-            MSGPACK_UINT8 => {
-                self.offset += 1;
-                Ok(())
-            }
-            MSGPACK_UINT16 => {
-                self.offset += 2;
-                Ok(())
-            }
-            MSGPACK_UINT32 => {
-                self.offset += 4;
-                Ok(())
-            }
-            MSGPACK_UINT64 => {
-                self.offset += 8;
-                Ok(())
-            }
-            MSGPACK_INT8 => {
-                self.offset += 1;
-                Ok(())
-            }
-            MSGPACK_INT16 => {
-                self.offset += 2;
-                Ok(())
-            }
-            MSGPACK_INT32 => {
-                self.offset += 4;
-                Ok(())
+        // The number of values left to skip: containers add theirs here rather than
+        // recursing, so that nesting depth isn't bounded by the stack.
+        let mut remaining: u64 = 1;
+        while remaining > 0 {
+            remaining -= 1;
+            let prefix = self.decode_u8()?;
+
+            // The payload bytes this value carries, and the values it contains
+            let (bytes, values): (u64, u64) = match prefix {
+                MSGPACK_POSFIXINT_MIN..=MSGPACK_POSFIXINT_MAX => (0, 0),
+                MSGPACK_FIXMAP_MIN..=MSGPACK_FIXMAP_MAX => (0, 2 * (prefix & 0x0f) as u64),
+                MSGPACK_FIXARRAY_MIN..=MSGPACK_FIXARRAY_MAX => (0, (prefix & 0x0f) as u64),
+                MSGPACK_FIXSTR_MIN..=MSGPACK_FIXSTR_MAX => ((prefix & 0x1f) as u64, 0),
+                MSGPACK_NIL | MSGPACK_TRUE | MSGPACK_FALSE => (0, 0),
+                MSGPACK_BIN8 | MSGPACK_STR8 => (self.decode_u8()? as u64, 0),
+                MSGPACK_BIN16 | MSGPACK_STR16 => (self.decode_u16()? as u64, 0),
+                MSGPACK_BIN32 | MSGPACK_STR32 => (self.decode_u32()? as u64, 0),
+                // Extensions carry a type byte besides their data
+                MSGPACK_EXT8 => (self.decode_u8()? as u64 + 1, 0),
+                MSGPACK_EXT16 => (self.decode_u16()? as u64 + 1, 0),
+                MSGPACK_EXT32 => (self.decode_u32()? as u64 + 1, 0),
+                MSGPACK_FIXEXT1 => (2, 0),
+                MSGPACK_FIXEXT2 => (3, 0),
+                MSGPACK_FIXEXT4 => (5, 0),
+                MSGPACK_FIXEXT8 => (9, 0),
+                MSGPACK_FIXEXT16 => (17, 0),
+                MSGPACK_UINT8 | MSGPACK_INT8 => (1, 0),
+                MSGPACK_UINT16 | MSGPACK_INT16 => (2, 0),
+                MSGPACK_UINT32 | MSGPACK_INT32 | MSGPACK_FLOAT32 => (4, 0),
+                MSGPACK_UINT64 | MSGPACK_INT64 | MSGPACK_FLOAT64 => (8, 0),
+                MSGPACK_ARRAY16 => (0, self.decode_u16()? as u64),
+                MSGPACK_ARRAY32 => (0, self.decode_u32()? as u64),
+                MSGPACK_MAP16 => (0, 2 * self.decode_u16()? as u64),
+                MSGPACK_MAP32 => (0, 2 * self.decode_u32()? as u64),
+                // Negative fixint
+                _ if (prefix as i8) >= MSGPACK_NEGFIXINT_MIN && (prefix as i8) < 0 => (0, 0),
+                _ => return Err(DecodeError::UnexpectedType),
+            };
+
+            if bytes > (self.input.len() - self.offset) as u64 {
+                return Err(DecodeError::InsufficientData);
             }
-            MSGPACK_INT64 => {
-                self.offset += 8;
-                Ok(())
-            }
-            // Fixed integers are already handled by decode_u8
-
-            // Boolean and nil
-            MSGPACK_NIL | MSGPACK_TRUE | MSGPACK_FALSE => Ok(()),
-
-            // Map format
-            prefix @ MSGPACK_FIXMAP_MIN..=MSGPACK_FIXMAP_MAX => {
-                let len = (prefix & 0x0f) as usize;
-                for _ in 0..len {
-                    self.skip_value()?; // Skip key
-                    self.skip_value()?; // Skip value
-                }
-                Ok(())
-            }
-            MSGPACK_MAP16 => {
-                let len = self.decode_u16()? as usize;
-                for _ in 0..len {
-                    self.skip_value()?; // Skip key
-                    self.skip_value()?; // Skip value
-                }
-                Ok(())
-            }
-            MSGPACK_MAP32 => {
-                let len = self.decode_u32()? as usize;
-                for _ in 0..len {
-                    self.skip_value()?; // Skip key
-                    self.skip_value()?; // Skip value
-                }
-                Ok(())
-            }
-
-            // Array format
-            prefix @ MSGPACK_FIXARRAY_MIN..=MSGPACK_FIXARRAY_MAX => {
-                let len = (prefix & 0x0f) as usize;
-                for _ in 0..len {
-                    self.skip_value()?;
-                }
-                Ok(())
-            }
-            MSGPACK_ARRAY16 => {
-                let len = self.decode_u16()? as usize;
-                for _ in 0..len {
-                    self.skip_value()?;
-                }
-                Ok(())
-            }
-            MSGPACK_ARRAY32 => {
-                let len = self.decode_u32()? as usize;
-                for _ in 0..len {
-                    self.skip_value()?;
-                }
-                Ok(())
-            }
-
-            _ => Err(DecodeError::UnexpectedType),
+            self.offset += bytes as usize;
+            remaining += values;
         }
+        Ok(())
     }
 
     fn deserialize_value(&mut self, wip: Wip<'input>) -> Result<Wip<'input>, DecodeError> {
-- 
2.43.0


From 207c619891ad520aa55c7a9a8b1ddad09351195b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:07 +0000
Subject: [PATCH 19/41] fix: bool could be read from but not written to
 MessagePack

---
 facet-msgpack/src/to_msgpack.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/facet-msgpack/src/to_msgpack.rs b/facet-msgpack/src/to_msgpack.rs
index 456ad01..a903224 100644
--- a/facet-msgpack/src/to_msgpack.rs
+++ b/facet-msgpack/src/to_msgpack.rs
@@ -47,6 +47,9 @@ fn serialize<W: Write>(pv: Peek<'_>, writer: &mut W) -> io::Result<()> {
                     .get::<i8>()
                     .map_err(|e| io::Error::new(io::ErrorKind::Other, e))?;
                 write_i8(writer, *value)
+            } else if pv.shape().is_type::<bool>() {
+                let value = pv.get::<bool>().unwrap();
+                write_bool(writer, *value)
             } else {
                 return Err(io::Error::new(
                     io::ErrorKind::Other,
@@ -105,6 +108,10 @@ fn write_str<W: Write>(writer: &mut W, s: &str) -> io::Result<()> {
     writer.write_all(bytes)
 }
 
+fn write_bool<W: Write>(writer: &mut W, b: bool) -> io::Result<()> {
+    writer.write_all(&[if b { 0xc3 } else { 0xc2 }])
+}
+
 fn write_u8<W: Write>(writer: &mut W, n: u8) -> io::Result<()> {
     match n {
         0..=127 => {
-- 
2.43.0


From 5a4870f423a91d55c5cbd4a950da6193261a7158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:55 +0000
Subject: [PATCH 20/41] fix: a repeated field panicked the MessagePack
 deserializer

---
 facet-msgpack/src/errors.rs       | 3 +++
 facet-msgpack/src/from_msgpack.rs | 7 ++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/facet-msgpack/src/errors.rs b/facet-msgpack/src/errors.rs
index ef7ec0e..bafbd4a 100644
--- a/facet-msgpack/src/errors.rs
+++ b/facet-msgpack/src/errors.rs
@@ -14,6 +14,8 @@ pub enum Error {
     UnknownField(String),
     /// Required field is missing from the input
     MissingField(String),
+    /// The same field was given more than once
+    DuplicateField(String),
     /// Integer value is too large for the target type
     IntegerOverflow,
     /// Shape is not supported for deserialization
@@ -30,6 +32,7 @@ impl fmt::Display for Error {
             Error::InvalidData => write!(f, "Invalid MessagePack data"),
             Error::UnknownField(field) => write!(f, "Unknown field: {}", field),
             Error::MissingField(field) => write!(f, "Missing required field: {}", field),
+            Error::DuplicateField(field) => write!(f, "Duplicate field: {}", field),
             Error::IntegerOverflow => write!(f, "Integer value too large for target type"),
             Error::UnsupportedShape(shape) => {
                 write!(f, "Unsupported shape for deserialization: {}", shape)
diff --git a/facet-msgpack/src/from_msgpack.rs b/facet-msgpack/src/from_msgpack.rs
index 98361fd..9cbf1c9 100644
--- a/facet-msgpack/src/from_msgpack.rs
+++ b/facet-msgpack/src/from_msgpack.rs
@@ -371,15 +371,20 @@ impl<'input> Decoder<'input> {
                     return Err(DecodeError::UnsupportedType(format!("{}", shape)));
                 }
             }
-            Def::Struct(_) => {
+            Def::Struct(struct_def) => {
                 trace!("Deserializing struct");
                 let map_len = self.decode_map_len()?;
 
                 let mut wip = wip;
+                let mut seen = vec![false; struct_def.fields.len()];
                 for _ in 0..map_len {
                     let key = self.decode_string()?;
                     match wip.field_index(&key) {
                         Some(index) => {
+                            if seen[index] {
+                                return Err(DecodeError::DuplicateField(key));
+                            }
+                            seen[index] = true;
                             wip = self
                                 .deserialize_value(wip.field(index).unwrap())?
                                 .pop()
-- 
2.43.0


From 4701a8250e7cfa07b6f9bc7ebe5207c72ab83559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:24 +0000
Subject: [PATCH 21/41] fix: PhantomData<T> used the vtable of ()

---
 facet-core/src/impls_core/scalar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/facet-core/src/impls_core/scalar.rs b/facet-core/src/impls_core/scalar.rs
index 1c1d28b..73263fb 100644
--- a/facet-core/src/impls_core/scalar.rs
+++ b/facet-core/src/impls_core/scalar.rs
@@ -48,7 +48,7 @@ unsafe impl<T: ?Sized> Facet for core::marker::PhantomData<T> {
                     .build(),
             ))
             // TODO: we might be able to do something with specialization re: the shape of T?
-            .vtable(value_vtable!((), |f, _opts| write!(f, "PhantomData")))
+            .vtable(value_vtable!(Self, |f, _opts| write!(f, "PhantomData")))
             .build()
     };
 }
-- 
2.43.0


From e591d4031b7092747008cf9a4c0dba5add80800d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:24 +0000
Subject: [PATCH 22/41] fix: &[T] claimed the marker traits of T

---
 facet-core/src/impls_core/slice.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/facet-core/src/impls_core/slice.rs b/facet-core/src/impls_core/slice.rs
index 1b31b4d..b0e3799 100644
--- a/facet-core/src/impls_core/slice.rs
+++ b/facet-core/src/impls_core/slice.rs
@@ -52,7 +52,18 @@ where
                                 write!(f, "&[⋯]")
                             }
                         })
-                        .marker_traits(T::SHAPE.vtable.marker_traits)
+                        .marker_traits({
+                            // `&[T]` is a reference: always `Copy` and `Unpin`, and both
+                            // `Send` and `Sync` as soon as `T` is `Sync`
+                            let item_traits = T::SHAPE.vtable.marker_traits;
+                            let mut traits = MarkerTraits::COPY
+                                .union(MarkerTraits::UNPIN)
+                                .union(MarkerTraits::EQ.intersection(item_traits));
+                            if item_traits.contains(MarkerTraits::SYNC) {
+                                traits = traits.union(MarkerTraits::SEND).union(MarkerTraits::SYNC);
+                            }
+                            traits
+                        })
                         .default_in_place(|ptr| unsafe { ptr.put(&[] as &[T]) })
                         .clone_into(|src, dst| unsafe {
                             // This works because we're cloning a shared reference (&[T]), not the actual slice data.
-- 
2.43.0


From 7e41a1631f5676df60ed9e138a220025cf5a28bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:24 +0000
Subject: [PATCH 23/41] fix: arrays and slices hashed without their length

---
 facet-core/src/impls_core/array.rs | 4 +++-
 facet-core/src/impls_core/slice.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/facet-core/src/impls_core/array.rs b/facet-core/src/impls_core/array.rs
index 6413e1d..4c157ea 100644
--- a/facet-core/src/impls_core/array.rs
+++ b/facet-core/src/impls_core/array.rs
@@ -1,6 +1,6 @@
 use crate::*;
 use core::alloc::Layout;
-use core::{cmp::Ordering, iter::zip};
+use core::{cmp::Ordering, hash::Hash as _, iter::zip};
 
 unsafe impl<T, const L: usize> Facet for [T; L]
 where
@@ -145,6 +145,8 @@ where
                     if T::SHAPE.vtable.hash.is_some() {
                         builder = builder.hash(|value, state, hasher| {
                             let value = unsafe { value.get::<[T; L]>() };
+                            let mut length_hasher = unsafe { HasherProxy::new(state, hasher) };
+                            L.hash(&mut length_hasher);
                             for value in value {
                                 unsafe {
                                     (T::SHAPE.vtable.hash.unwrap_unchecked())(
diff --git a/facet-core/src/impls_core/slice.rs b/facet-core/src/impls_core/slice.rs
index b0e3799..1a91dbf 100644
--- a/facet-core/src/impls_core/slice.rs
+++ b/facet-core/src/impls_core/slice.rs
@@ -1,5 +1,5 @@
 use crate::*;
-use core::alloc::Layout;
+use core::{alloc::Layout, hash::Hash as _};
 
 unsafe impl<T> Facet for &[T]
 where
@@ -154,6 +154,8 @@ where
                     if T::SHAPE.vtable.hash.is_some() {
                         builder = builder.hash(|value, state, hasher| {
                             let value = unsafe { value.get::<&[T]>() };
+                            let mut length_hasher = unsafe { HasherProxy::new(state, hasher) };
+                            value.len().hash(&mut length_hasher);
                             for item in value.iter() {
                                 unsafe {
                                     (T::SHAPE.vtable.hash.unwrap_unchecked())(
-- 
2.43.0


From beddc837f9dfa02d75430fb0073f6dd34b6a3772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:25 +0000
Subject: [PATCH 24/41] fix: a 1-tuple was written like its element

---
 facet-core/src/impls_core/tuple.rs | 4 ++--
 facet-dev/src/tuples.rs            | 7 +++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/facet-core/src/impls_core/tuple.rs b/facet-core/src/impls_core/tuple.rs
index ad13460..09b3c8a 100644
--- a/facet-core/src/impls_core/tuple.rs
+++ b/facet-core/src/impls_core/tuple.rs
@@ -52,7 +52,7 @@ where
         where
             T0: Facet,
         {
-            write_type_name_list(f, opts, "(", ", ", ")", &[T0::SHAPE])
+            write_type_name_list(f, opts, "(", ", ", ",)", &[T0::SHAPE])
         }
 
         Shape::builder()
@@ -73,7 +73,7 @@ where
                                 let ptr = &value.0 as *const T0;
                                 (T0::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
                             }?;
-                            write!(f, ")")
+                            write!(f, ",)")
                         });
                     }
 
diff --git a/facet-dev/src/tuples.rs b/facet-dev/src/tuples.rs
index a76064b..329931d 100644
--- a/facet-dev/src/tuples.rs
+++ b/facet-dev/src/tuples.rs
@@ -100,9 +100,12 @@ pub fn generate() -> String {
         w!("        where\n");
         w!("            {}\n", where_predicates);
         w!("        {{\n");
+        // A 1-tuple is only told from a parenthesized type or value by its comma
+        let close = if n == 1 { ",)" } else { ")" };
         if n <= 3 {
             w!(
-                "            write_type_name_list(f, opts, \"(\", \", \", \")\", &[{}])\n",
+                "            write_type_name_list(f, opts, \"(\", \", \", \"{}\", &[{}])\n",
+                close,
                 shape_list
             );
         } else {
@@ -209,7 +212,7 @@ pub fn generate() -> String {
             w!("                            }}?;\n");
         }
 
-        w!("                            write!(f, \")\")\n");
+        w!("                            write!(f, \"{}\")\n", close);
         w!("                        }});\n\n");
 
         w!("                    }}\n\n");
-- 
2.43.0


From daceb3f431e6fc27a7751073b3baed68d606dc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:54 +0000
Subject: [PATCH 25/41] fix: equal HashMaps hashed differently, depending on
 their iteration order

---
 facet-core/src/impls_std/hashmap.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/facet-core/src/impls_std/hashmap.rs b/facet-core/src/impls_std/hashmap.rs
index 31dabe4..438735b 100644
--- a/facet-core/src/impls_std/hashmap.rs
+++ b/facet-core/src/impls_std/hashmap.rs
@@ -1,11 +1,11 @@
 use alloc::collections::VecDeque;
 use core::{
     alloc::Layout,
-    hash::{BuildHasher, Hash},
+    hash::{BuildHasher, Hash, Hasher as _},
     mem::MaybeUninit,
 };
 use std::collections::HashMap;
-use std::hash::RandomState;
+use std::hash::{DefaultHasher, RandomState};
 
 use crate::ptr::{PtrConst, PtrMut, PtrUninit};
 
@@ -139,14 +139,21 @@ where
                             let v_hash = V::SHAPE.vtable.hash.unwrap_unchecked();
                             let mut hasher = HasherProxy::new(hasher_this, hasher_write_fn);
                             map.len().hash(&mut hasher);
+                            // Equal maps might iterate over their entries in any order: these
+                            // are hashed one by one, and their hashes combined with an
+                            // operation that's commutative.
+                            let mut entries = 0_u64;
                             for (k, v) in map {
-                                k.hash(&mut hasher);
+                                let mut entry_hasher = DefaultHasher::new();
+                                k.hash(&mut entry_hasher);
                                 (v_hash)(
                                     PtrConst::new(v as *const _),
-                                    hasher_this,
-                                    hasher_write_fn,
+                                    PtrMut::new(&mut entry_hasher as *mut DefaultHasher),
+                                    |hasher, bytes| hasher.as_mut::<DefaultHasher>().write(bytes),
                                 );
+                                entries = entries.wrapping_add(entry_hasher.finish());
                             }
+                            entries.hash(&mut hasher);
                         });
                     }
 
-- 
2.43.0


From 04387970e6f997639887de25f6196d8a0beb36da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:36 +0000
Subject: [PATCH 26/41] fix: a repr(C) enum with a discriminant wider than a C
 int gets its representation

---
 facet-derive-emit/src/process_enum.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/facet-derive-emit/src/process_enum.rs b/facet-derive-emit/src/process_enum.rs
index 4ba5668..61c9a7a 100644
--- a/facet-derive-emit/src/process_enum.rs
+++ b/facet-derive-emit/src/process_enum.rs
@@ -230,17 +230,26 @@ fn process_c_style_enum(
 
     // first, create an enum to represent the discriminant type
     let shadow_discriminant_name = format!("__ShadowDiscriminant{enum_name}");
-    let all_variant_names = variants
+    let all_variants = variants
         .iter()
-        .map(|var_like| match &var_like.value.variant {
-            EnumVariantData::Unit(unit) => unit.name.to_string(),
-            EnumVariantData::Tuple(tuple) => tuple.name.to_string(),
-            EnumVariantData::Struct(struct_var) => struct_var.name.to_string(),
+        .map(|var_like| {
+            let name = match &var_like.value.variant {
+                EnumVariantData::Unit(unit) => unit.name.to_string(),
+                EnumVariantData::Tuple(tuple) => tuple.name.to_string(),
+                EnumVariantData::Struct(struct_var) => struct_var.name.to_string(),
+            };
+            // the values matter: they can make the discriminant wider than a C int
+            match &var_like.value.discriminant {
+                Some(discriminant) => {
+                    format!("{name} = {}", get_discriminant_value(&discriminant.second))
+                }
+                None => name,
+            }
         })
         .collect::<Vec<_>>()
         .join(", ");
     shadow_struct_defs.push(format!(
-        "#[repr({repr})] enum {shadow_discriminant_name} {{ {all_variant_names} }}",
+        "#[repr({repr})] enum {shadow_discriminant_name} {{ {all_variants} }}",
         // repr is either C or the explicit discriminant type
         repr = discriminant_type.map(|d| d.as_rust_type()).unwrap_or("C")
     ));
-- 
2.43.0


From db0f010a18a53bdfffc04492effd2049bb21f438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:47 +0000
Subject: [PATCH 27/41] fix: pretty-print redacts sensitive fields of enum
 variants

---
 facet-pretty/src/printer.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/facet-pretty/src/printer.rs b/facet-pretty/src/printer.rs
index ccef62f..ac9a9d5 100644
--- a/facet-pretty/src/printer.rs
+++ b/facet-pretty/src/printer.rs
@@ -522,6 +522,15 @@ impl PrettyPrinter {
                             field_index: field_index + 1,
                         };
 
+                        // Check if field is sensitive
+                        if field.flags.contains(FieldFlags::SENSITIVE) {
+                            self.write_redacted(f, "[REDACTED]")?;
+                            self.write_punctuation(f, ",")?;
+                            writeln!(f)?;
+                            stack.push_back(item);
+                            continue;
+                        }
+
                         // Create finish and start items for processing the field value
                         let finish_item = StackItem {
                             value: field_value,
-- 
2.43.0


From 07bfabe39eb330c88338d143b1eef02256f5aa90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:57 +0000
Subject: [PATCH 28/41] fix: pretty-print takes no zero-sized value for a cycle

---
 facet-pretty/src/printer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/facet-pretty/src/printer.rs b/facet-pretty/src/printer.rs
index ac9a9d5..6545fd9 100644
--- a/facet-pretty/src/printer.rs
+++ b/facet-pretty/src/printer.rs
@@ -145,7 +145,10 @@ impl PrettyPrinter {
                     }
 
                     // Check for cycles - if we've seen this value before at a different type_depth
-                    if let Some(&ptr_type_depth) = visited.get(&item.value.id()) {
+                    // (values without a size contain nothing, and may share their address)
+                    if item.value.shape().layout.size() == 0 {
+                        // can't be part of a cycle
+                    } else if let Some(&ptr_type_depth) = visited.get(&item.value.id()) {
                         // If the current type_depth is significantly deeper than when we first saw this value,
                         // we have a true cycle, not just a transparent wrapper
                         if item.type_depth > ptr_type_depth + 1 {
-- 
2.43.0


From d8303b58759eab112ecd202ff0823b3bc9fc2a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:39 +0000
Subject: [PATCH 29/41] fix: pretty-print resets the color after a byte

---
 facet-pretty/src/printer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/facet-pretty/src/printer.rs b/facet-pretty/src/printer.rs
index 6545fd9..4afe458 100644
--- a/facet-pretty/src/printer.rs
+++ b/facet-pretty/src/printer.rs
@@ -652,7 +652,9 @@ impl PrettyPrinter {
                     write!(f, "{:02x}", *byte)?;
 
                     // Reset color if needed
-                    // Reset color already handled by stylize
+                    if self.use_colors {
+                        write!(f, "\x1b[0m")?;
+                    }
 
                     // Push back current item to continue after formatting byte
                     item.state = StackState::ProcessBytesItem {
-- 
2.43.0


From 619f84b63f0800aec7f2943e963db3f7d4c8949b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 30/41] fix: form data keys that aren't in bracket notation, or
 nested without bounds, were taken for nested fields

---
 facet-urlencoded/src/lib.rs | 57 +++++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 22 deletions(-)

diff --git a/facet-urlencoded/src/lib.rs b/facet-urlencoded/src/lib.rs
index 6dca4ad..e652f8c 100644
--- a/facet-urlencoded/src/lib.rs
+++ b/facet-urlencoded/src/lib.rs
@@ -126,29 +126,16 @@ impl NestedValues {
 
     fn insert(&mut self, key: &str, value: String) {
         // For bracket notation like user[name] or user[address][city]
-        if let Some(open_bracket) = key.find('[') {
-            if let Some(close_bracket) = key.find(']') {
-                if open_bracket < close_bracket {
-                    let parent_key = &key[0..open_bracket];
-                    let nested_key = &key[(open_bracket + 1)..close_bracket];
-                    let remainder = &key[(close_bracket + 1)..];
-
-                    let nested = self
-                        .nested
-                        .entry(parent_key.to_string())
-                        .or_insert_with(NestedValues::new);
-
-                    if remainder.is_empty() {
-                        // Simple case: user[name]=value
-                        nested.flat.insert(nested_key.to_string(), value);
-                    } else {
-                        // Handle deeply nested case like user[address][city]=value
-                        let new_key = format!("{}{}", nested_key, remainder);
-                        nested.insert(&new_key, value);
-                    }
-                    return;
-                }
+        if let Some((parents, name)) = split_key(key) {
+            let mut values = self;
+            for parent in parents {
+                values = values
+                    .nested
+                    .entry(parent.to_string())
+                    .or_insert_with(NestedValues::new);
             }
+            values.flat.insert(name.to_string(), value);
+            return;
         }
 
         // If we get here, it's a flat key-value pair
@@ -174,6 +161,32 @@ impl NestedValues {
     }
 }
 
+/// How many levels of nesting a key may have. Values are handled recursively, so there has to
+/// be a limit: keys nested deeper than this are not taken to be in bracket notation.
+const MAX_DEPTH: usize = 128;
+
+/// Splits a key in bracket notation, like `user[address][city]`, into the names of the
+/// structures it goes through and the name of the field in the innermost of them.
+///
+/// Returns `None` if the key isn't in bracket notation: if it has no brackets, brackets that
+/// aren't balanced or that are nested, or anything between the brackets of two names.
+fn split_key(key: &str) -> Option<(Vec<&str>, &str)> {
+    let (mut name, mut rest) = key.split_at(key.find('[')?);
+    if name.contains(']') {
+        return None;
+    }
+    let mut parents = Vec::new();
+    while !rest.is_empty() {
+        let (segment, remainder) = rest.strip_prefix('[')?.split_once(']')?;
+        if segment.contains('[') || parents.len() == MAX_DEPTH {
+            return None;
+        }
+        parents.push(core::mem::replace(&mut name, segment));
+        rest = remainder;
+    }
+    Some((parents, name))
+}
+
 /// Deserialize a value recursively using the nested values
 fn deserialize_value<'mem>(
     wip: Wip<'mem>,
-- 
2.43.0


From bc60a1d20af0067d3e79b138e627303000bbd221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 31/41] fix: command line arguments fill the positional fields
 in order, and no further

---
 facet-args/src/lib.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/facet-args/src/lib.rs b/facet-args/src/lib.rs
index c0cdbf3..f909c5a 100644
--- a/facet-args/src/lib.rs
+++ b/facet-args/src/lib.rs
@@ -63,16 +63,18 @@ pub fn from_slice<T: Facet>(s: &[&str]) -> T {
                 panic!("Expected struct definition");
             };
 
-            for (field_index, f) in sd.fields.iter().enumerate() {
-                if f.attributes
+            // The token goes to the first positional field that has no value yet
+            let field_index = sd.fields.iter().enumerate().position(|(field_index, f)| {
+                f.attributes
                     .iter()
                     .any(|a| matches!(a, FieldAttribute::Arbitrary(a) if a.contains("positional")))
-                {
-                    let field = wip.field(field_index).unwrap();
-                    wip = parse_field(field, token).unwrap();
-                    break;
-                }
-            }
+                    && !wip.is_field_set(field_index).unwrap()
+            });
+            let Some(field_index) = field_index else {
+                panic!("Unexpected positional argument: {}", token);
+            };
+            let field = wip.field(field_index).unwrap();
+            wip = parse_field(field, token).unwrap();
         }
     }
     wip.build().unwrap().materialize().unwrap()
-- 
2.43.0


From 51a0b741af11fcffd671611d1530d0c672a1362d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 32/41] fix: negative YAML integers wrapped around, and
 unsupported YAML targets panicked

---
 facet-yaml/src/lib.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/facet-yaml/src/lib.rs b/facet-yaml/src/lib.rs
index e402a67..2666470 100644
--- a/facet-yaml/src/lib.rs
+++ b/facet-yaml/src/lib.rs
@@ -58,7 +58,9 @@ fn yaml_to_u64(ty: &Yaml) -> Result<u64, AnyErr> {
         Yaml::Real(r) => r
             .parse::<u64>()
             .map_err(|_| AnyErr("Failed to parse real as u64".into())),
-        Yaml::Integer(i) => Ok(*i as u64),
+        Yaml::Integer(i) => {
+            u64::try_from(*i).map_err(|_| AnyErr(format!("Integer {i} doesn't fit in a u64")))
+        }
         Yaml::String(s) => s
             .parse::<u64>()
             .map_err(|_| AnyErr("Failed to parse string as u64".into())),
@@ -92,8 +94,6 @@ fn deserialize_value<'a>(mut wip: Wip<'a>, value: &Yaml) -> Result<Wip<'a>, AnyE
                 return Err(AnyErr(format!("Unsupported scalar type: {}", shape)));
             }
         }
-        Def::List(_) => todo!(),
-        Def::Map(_) => todo!(),
         Def::Struct(_) => {
             if let Yaml::Hash(hash) = value {
                 for (k, v) in hash {
@@ -113,7 +113,6 @@ fn deserialize_value<'a>(mut wip: Wip<'a>, value: &Yaml) -> Result<Wip<'a>, AnyE
                 return Err(AnyErr(format!("Expected a YAML hash, got: {:?}", value)));
             }
         }
-        Def::Enum(_) => todo!(),
         _ => return Err(AnyErr(format!("Unsupported type: {:?}", shape))),
     }
     Ok(wip)
-- 
2.43.0


From 977bcc770df951da09010c307ccf449523bb19fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:22 +0000
Subject: [PATCH 33/41] fix: TOML floats with a fraction were truncated to
 integers

---
 facet-toml/src/lib.rs       | 20 ++++++++++----------
 facet-toml/src/to_scalar.rs | 11 +++++++++++
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/facet-toml/src/lib.rs b/facet-toml/src/lib.rs
index e564cd0..bde1818 100644
--- a/facet-toml/src/lib.rs
+++ b/facet-toml/src/lib.rs
@@ -414,52 +414,52 @@ fn deserialize_as_scalar<'a>(mut wip: Wip<'a>, item: &Item) -> Result<Wip<'a>, A
         }
         ScalarType::U8 => {
             wip = wip
-                .put(to_scalar::number::<u8>(item)?)
+                .put(to_scalar::integer::<u8>(item)?)
                 .map_err(|e| AnyErr(e.to_string()))?
         }
         ScalarType::U16 => {
             wip = wip
-                .put(to_scalar::number::<u16>(item)?)
+                .put(to_scalar::integer::<u16>(item)?)
                 .map_err(|e| AnyErr(e.to_string()))?
         }
         ScalarType::U32 => {
             wip = wip
-                .put(to_scalar::number::<u32>(item)?)
+                .put(to_scalar::integer::<u32>(item)?)
                 .map_err(|e| AnyErr(e.to_string()))?
         }
         ScalarType::U64 => {
             wip = wip
-                .put(to_scalar::number::<u64>(item)?)
+                .put(to_scalar::integer::<u64>(item)?)
                 .map_err(|e| AnyErr(e.to_string()))?
         }
         ScalarType::USize => {
             wip = wip
-                .put(to_scalar::number::<usize>(item)?)
+                .put(to_scalar::integer::<usize>(item)?)
                 .map_err(|e| AnyErr(e.to_string()))?
         }
         ScalarType::I8 => {
             wip = wip
-                .put(to_scalar::number::<i8>(item)?)
+                .put(to_scalar::integer::<i8>(item)?)
                 .map_err(|e| AnyErr(e.to_string()))?
         }
         ScalarType::I16 => {
             wip = wip
-                .put(to_scalar::number::<i16>(item)?)
+                .put(to_scalar::integer::<i16>(item)?)
                 .map_err(|e| AnyErr(e.to_string()))?
         }
         ScalarType::I32 => {
             wip = wip
-                .put(to_scalar::number::<i32>(item)?)
+                .put(to_scalar::integer::<i32>(item)?)
                 .map_err(|e| AnyErr(e.to_string()))?
         }
         ScalarType::I64 => {
             wip = wip
-                .put(to_scalar::number::<i64>(item)?)
+                .put(to_scalar::integer::<i64>(item)?)
                 .map_err(|e| AnyErr(e.to_string()))?
         }
         ScalarType::ISize => {
             wip = wip
-                .put(to_scalar::number::<isize>(item)?)
+                .put(to_scalar::integer::<isize>(item)?)
                 .map_err(|e| AnyErr(e.to_string()))?
         }
         #[cfg(feature = "std")]
diff --git a/facet-toml/src/to_scalar.rs b/facet-toml/src/to_scalar.rs
index f7654bc..ddde364 100644
--- a/facet-toml/src/to_scalar.rs
+++ b/facet-toml/src/to_scalar.rs
@@ -24,6 +24,17 @@ pub(crate) fn number<T: NumCast>(item: &Item) -> Result<T, AnyErr> {
     }
 }
 
+/// Try to convert a TOML integer or a float without a fraction to a Rust integer.
+pub(crate) fn integer<T: NumCast>(item: &Item) -> Result<T, AnyErr> {
+    if let Some(Value::Float(r)) = item.as_value() {
+        if r.value().fract() != 0.0 {
+            return Err(format!("Cannot convert float to {}", std::any::type_name::<T>()).into());
+        }
+    }
+
+    number(item)
+}
+
 /// Try to convert a TOML boolean to a Rust boolean.
 pub(crate) fn boolean(item: &Item) -> Result<bool, AnyErr> {
     let v = item
-- 
2.43.0


From dc0456e6b20641f6c82cb9768afa8609e3fd581d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:22 +0000
Subject: [PATCH 34/41] fix: nothing could follow an option in a TOML document,
 as the deserializer never left it

---
 facet-toml/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/facet-toml/src/lib.rs b/facet-toml/src/lib.rs
index bde1818..cfbed89 100644
--- a/facet-toml/src/lib.rs
+++ b/facet-toml/src/lib.rs
@@ -99,6 +99,7 @@ fn deserialize_as_struct<'a>(
                     wip = wip
                         .pop_some_push_none()
                         .map_err(|e| AnyErr(e.to_string()))?;
+                    wip = wip.pop().map_err(|e| AnyErr(e.to_string()))?;
                 } else {
                     return Err(AnyErr(format!("Expected field '{}'", field.name)));
                 }
@@ -366,6 +367,8 @@ fn deserialize_as_option<'a>(mut wip: Wip<'a>, item: &Item) -> Result<Wip<'a>, A
 
     wip = deserialize_item(wip, item)?;
 
+    wip = wip.pop().map_err(|e| AnyErr(e.to_string()))?;
+
     trace!("Finished deserializing {}", "option".blue());
 
     Ok(wip)
-- 
2.43.0


From 56054aa3512f8cbe654c5fe087faf6ff36e3ca2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:22 +0000
Subject: [PATCH 35/41] fix: deserializing TOML into a smart pointer panicked

---
 facet-toml/src/lib.rs | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/facet-toml/src/lib.rs b/facet-toml/src/lib.rs
index cfbed89..0867887 100644
--- a/facet-toml/src/lib.rs
+++ b/facet-toml/src/lib.rs
@@ -42,7 +42,6 @@ fn deserialize_item<'a>(wip: Wip<'a>, item: &Item) -> Result<Wip<'a>, AnyErr> {
         Def::Struct(def) => deserialize_as_struct(wip, def, item),
         Def::Enum(_) => deserialize_as_enum(wip, item),
         Def::Option(_) => deserialize_as_option(wip, item),
-        Def::SmartPointer(_) => deserialize_as_smartpointer(wip, item),
         _ => Err(AnyErr(format!("Unsupported type: {:?}", wip.shape()))),
     }
 }
@@ -374,14 +373,6 @@ fn deserialize_as_option<'a>(mut wip: Wip<'a>, item: &Item) -> Result<Wip<'a>, A
     Ok(wip)
 }
 
-fn deserialize_as_smartpointer<'a>(mut _wip: Wip<'a>, _item: &Item) -> Result<Wip<'a>, AnyErr> {
-    trace!("Deserializing {}", "smart pointer".blue());
-
-    trace!("Finished deserializing {}", "smart pointer".blue());
-
-    todo!();
-}
-
 fn deserialize_as_scalar<'a>(mut wip: Wip<'a>, item: &Item) -> Result<Wip<'a>, AnyErr> {
     trace!("Deserializing {}", "scalar".blue());
 
-- 
2.43.0


From bf044488c2fd3521510b8113bd1de3c87c2ec5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:22 +0000
Subject: [PATCH 36/41] fix: TOML enum variants took their name or one value
 for all their fields, were never left, and panicked on arrays of tables

---
 facet-toml/src/lib.rs | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/facet-toml/src/lib.rs b/facet-toml/src/lib.rs
index 0867887..ba37820 100644
--- a/facet-toml/src/lib.rs
+++ b/facet-toml/src/lib.rs
@@ -116,8 +116,6 @@ fn deserialize_as_enum<'a>(wip: Wip<'a>, item: &Item) -> Result<Wip<'a>, AnyErr>
     trace!("Deserializing {}", "enum".blue());
 
     let wip = match item {
-        Item::None => todo!(),
-
         Item::Value(value) => {
             trace!("Entering {}", "value".cyan());
 
@@ -155,7 +153,17 @@ fn deserialize_as_enum<'a>(wip: Wip<'a>, item: &Item) -> Result<Wip<'a>, AnyErr>
                 .as_str()
                 .ok_or_else(|| format!("Expected string, got: {}", value.type_name()))?;
 
-            build_enum_from_variant_name(wip, variant_name, item)?
+            // There's only a name, so the variant can't have any fields
+            let wip = wip
+                .variant_named(variant_name)
+                .map_err(|e| AnyErr(e.to_string()))?;
+            // Safe to unwrap because the variant got just selected
+            if wip.selected_variant().unwrap().data.kind != StructKind::Unit {
+                return Err(AnyErr(format!(
+                    "Variant '{variant_name}' has fields, so it can't be parsed from its name alone"
+                )));
+            }
+            wip
         }
 
         Item::Table(table) => {
@@ -177,7 +185,12 @@ fn deserialize_as_enum<'a>(wip: Wip<'a>, item: &Item) -> Result<Wip<'a>, AnyErr>
             }
         }
 
-        Item::ArrayOfTables(_array_of_tables) => todo!(),
+        Item::None | Item::ArrayOfTables(_) => {
+            return Err(AnyErr(format!(
+                "Cannot parse enum from {}",
+                item.type_name()
+            )));
+        }
     };
 
     trace!("Finished deserializing {}", "enum".blue());
@@ -228,7 +241,17 @@ fn build_enum_from_variant_name<'a>(
 
             wip = wip.pop().map_err(|e| AnyErr(e.to_string()))?;
         } else if item.is_value() {
+            // A single value can't be several fields
+            if variant.data.fields.len() > 1 {
+                return Err(AnyErr(
+                    "Failed trying to parse a single value as a variant with multiple fields"
+                        .into(),
+                ));
+            }
+
             wip = deserialize_item(wip, item)?;
+
+            wip = wip.pop().map_err(|e| AnyErr(e.to_string()))?;
         } else {
             return Err(format!("TOML {} is not a recognized type", item.type_name()).into());
         }
-- 
2.43.0


From 56d899832bc0f34c0300c36aa78f3c6f8e029c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:00 +0000
Subject: [PATCH 37/41] fix: several attributes in one #[facet(..)] were
 dropped, all of them, if the first is known to the derive macro

---
 facet-derive-emit/src/lib.rs            | 163 +++++++++++++-----------
 facet-derive-emit/src/process_struct.rs |  10 +-
 facet-derive-parse/src/lib.rs           |   4 +-
 3 files changed, 94 insertions(+), 83 deletions(-)

diff --git a/facet-derive-emit/src/lib.rs b/facet-derive-emit/src/lib.rs
index bd340f1..8ba9b04 100644
--- a/facet-derive-emit/src/lib.rs
+++ b/facet-derive-emit/src/lib.rs
@@ -132,67 +132,72 @@ pub(crate) fn gen_struct_field(
     let mut shape_of = "shape_of";
     for attr in attrs {
         match &attr.body.content {
-            AttributeInner::Facet(facet_attr) => match &facet_attr.inner.content {
-                FacetInner::Sensitive(_ksensitive) => {
-                    flags = "::facet::FieldFlags::SENSITIVE";
-                    attribute_list.push("::facet::FieldAttribute::Sensitive".to_string());
-                }
-                FacetInner::Default(_) => {
-                    attribute_list.push("::facet::FieldAttribute::Default(None)".to_string());
-                }
-                FacetInner::DefaultEquals(inner) => {
-                    attribute_list.push(format!(
-                        r#"::facet::FieldAttribute::Default(Some(|ptr| {{
-                            unsafe {{ ptr.put({}()) }}
-                        }}))"#,
-                        inner
-                            .value
-                            .value()
-                            .trim_start_matches('"')
-                            .trim_end_matches('"') // FIXME: that's pretty bad
-                    ));
-                }
-                FacetInner::Transparent(_) => {
-                    // Not applicable on fields; ignore.
-                }
-                FacetInner::Invariants(_invariant_inner) => {
-                    panic!("fields cannot have invariants")
-                }
-                FacetInner::Opaque(_kopaque) => {
-                    shape_of = "shape_of_opaque";
-                }
-                FacetInner::DenyUnknownFields(_) => {
-                    // not applicable on fields
-                }
-                FacetInner::Other(tt) => {
-                    let attr_str = tt.tokens_to_string();
-                    if let Some(equal_pos) = attr_str.find('=') {
-                        let key = attr_str[..equal_pos].trim();
-                        if key == "rename" {
-                            let value = attr_str[equal_pos + 1..].trim();
-                            // A string literal is one already: unquoting it and quoting it
-                            // again would have to deal with its escapes.
-                            let value = if value.ends_with(['"', '#']) {
-                                value.to_string()
-                            } else {
-                                format!("{value:?}")
-                            };
+            AttributeInner::Facet(facet_attr) => {
+                for inner in &facet_attr.inner.content.0 {
+                    match &inner.value {
+                        FacetInner::Sensitive(_ksensitive) => {
+                            flags = "::facet::FieldFlags::SENSITIVE";
+                            attribute_list.push("::facet::FieldAttribute::Sensitive".to_string());
+                        }
+                        FacetInner::Default(_) => {
                             attribute_list
-                                .push(format!("::facet::FieldAttribute::Rename({value})"));
-                        } else {
+                                .push("::facet::FieldAttribute::Default(None)".to_string());
+                        }
+                        FacetInner::DefaultEquals(inner) => {
                             attribute_list.push(format!(
-                                r#"::facet::FieldAttribute::Arbitrary({:?})"#,
-                                attr_str
+                                r#"::facet::FieldAttribute::Default(Some(|ptr| {{
+                                    unsafe {{ ptr.put({}()) }}
+                                }}))"#,
+                                inner
+                                    .value
+                                    .value()
+                                    .trim_start_matches('"')
+                                    .trim_end_matches('"') // FIXME: that's pretty bad
                             ));
                         }
-                    } else {
-                        attribute_list.push(format!(
-                            r#"::facet::FieldAttribute::Arbitrary({:?})"#,
-                            attr_str
-                        ));
+                        FacetInner::Transparent(_) => {
+                            // Not applicable on fields; ignore.
+                        }
+                        FacetInner::Invariants(_invariant_inner) => {
+                            panic!("fields cannot have invariants")
+                        }
+                        FacetInner::Opaque(_kopaque) => {
+                            shape_of = "shape_of_opaque";
+                        }
+                        FacetInner::DenyUnknownFields(_) => {
+                            // not applicable on fields
+                        }
+                        FacetInner::Other(tt) => {
+                            let attr_str = tt.tokens_to_string();
+                            if let Some(equal_pos) = attr_str.find('=') {
+                                let key = attr_str[..equal_pos].trim();
+                                if key == "rename" {
+                                    let value = attr_str[equal_pos + 1..].trim();
+                                    // A string literal is one already: unquoting it and quoting it
+                                    // again would have to deal with its escapes.
+                                    let value = if value.ends_with(['"', '#']) {
+                                        value.to_string()
+                                    } else {
+                                        format!("{:?}", value.trim_matches('"'))
+                                    };
+                                    attribute_list
+                                        .push(format!("::facet::FieldAttribute::Rename({value})"));
+                                } else {
+                                    attribute_list.push(format!(
+                                        r#"::facet::FieldAttribute::Arbitrary({:?})"#,
+                                        attr_str
+                                    ));
+                                }
+                            } else {
+                                attribute_list.push(format!(
+                                    r#"::facet::FieldAttribute::Arbitrary({:?})"#,
+                                    attr_str
+                                ));
+                            }
+                        }
                     }
                 }
-            },
+            }
             AttributeInner::Doc(doc_inner) => doc_lines.push(doc_inner.value.value()),
             AttributeInner::Repr(_) => {
                 // muffin
@@ -295,29 +300,33 @@ fn build_container_attributes(attributes: &[Attribute]) -> String {
 
     for attr in attributes {
         match &attr.body.content {
-            AttributeInner::Facet(facet_attr) => match facet_attr.inner.content {
-                FacetInner::DenyUnknownFields(_) => {
-                    items.push("::facet::ShapeAttribute::DenyUnknownFields");
-                }
-                FacetInner::DefaultEquals(_) | FacetInner::Default(_) => {
-                    items.push("::facet::ShapeAttribute::Default");
-                }
-                FacetInner::Transparent(_) => {
-                    items.push("::facet::ShapeAttribute::Transparent");
-                }
-                FacetInner::Sensitive(_) => {
-                    // TODO
-                }
-                FacetInner::Invariants(_) => {
-                    // dealt with elsewhere
-                }
-                FacetInner::Opaque(_) => {
-                    // TODO
-                }
-                FacetInner::Other(_) => {
-                    // TODO: add to arbitrary invariants
+            AttributeInner::Facet(facet_attr) => {
+                for inner in &facet_attr.inner.content.0 {
+                    match inner.value {
+                        FacetInner::DenyUnknownFields(_) => {
+                            items.push("::facet::ShapeAttribute::DenyUnknownFields");
+                        }
+                        FacetInner::DefaultEquals(_) | FacetInner::Default(_) => {
+                            items.push("::facet::ShapeAttribute::Default");
+                        }
+                        FacetInner::Transparent(_) => {
+                            items.push("::facet::ShapeAttribute::Transparent");
+                        }
+                        FacetInner::Sensitive(_) => {
+                            // TODO
+                        }
+                        FacetInner::Invariants(_) => {
+                            // dealt with elsewhere
+                        }
+                        FacetInner::Opaque(_) => {
+                            // TODO
+                        }
+                        FacetInner::Other(_) => {
+                            // TODO: add to arbitrary invariants
+                        }
+                    }
                 }
-            },
+            }
             _ => {
                 // do nothing.
             }
diff --git a/facet-derive-emit/src/process_struct.rs b/facet-derive-emit/src/process_struct.rs
index e5c0d5e..95371e1 100644
--- a/facet-derive-emit/src/process_struct.rs
+++ b/facet-derive-emit/src/process_struct.rs
@@ -84,10 +84,12 @@ pub(crate) fn process_struct(parsed: Struct) -> TokenStream {
         .attributes
         .iter()
         .filter_map(|attr| match &attr.body.content {
-            AttributeInner::Facet(facet_attr) => match &facet_attr.inner.content {
-                FacetInner::Invariants(invariant_inner) => Some(invariant_inner),
-                _ => None,
-            },
+            AttributeInner::Facet(facet_attr) => Some(&facet_attr.inner.content.0),
+            _ => None,
+        })
+        .flatten()
+        .filter_map(|inner| match &inner.value {
+            FacetInner::Invariants(invariant_inner) => Some(invariant_inner),
             _ => None,
         })
         .collect::<Vec<_>>();
diff --git a/facet-derive-parse/src/lib.rs b/facet-derive-parse/src/lib.rs
index ecc857c..c3f828d 100644
--- a/facet-derive-parse/src/lib.rs
+++ b/facet-derive-parse/src/lib.rs
@@ -111,8 +111,8 @@ unsynn! {
     pub struct FacetAttr {
         /// The keyword for the facet attribute.
         pub _facet: KFacet,
-        /// The inner content of the facet attribute.
-        pub inner: ParenthesisGroupContaining<FacetInner>,
+        /// The inner content of the facet attribute: there may be several of them.
+        pub inner: ParenthesisGroupContaining<CommaDelimitedVec<FacetInner>>,
     }
 
     /// Represents the inner content of a facet attribute.
-- 
2.43.0


From 46c379ca16356a9e7d766ed030abc460b27f3252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:00 +0000
Subject: [PATCH 38/41] fix: the names of fields that are raw identifiers
 contained their r#

---
 facet-derive-emit/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/facet-derive-emit/src/lib.rs b/facet-derive-emit/src/lib.rs
index 8ba9b04..34604f1 100644
--- a/facet-derive-emit/src/lib.rs
+++ b/facet-derive-emit/src/lib.rs
@@ -219,10 +219,13 @@ pub(crate) fn gen_struct_field(
         .map(|offset| format!(" + {offset}"))
         .unwrap_or_default();
 
+    // The r# of a raw identifier isn't part of the name
+    let name = field_name.strip_prefix("r#").unwrap_or(field_name);
+
     // Generate each field definition
     format!(
         "::facet::Field::builder()
-    .name(\"{field_name}\")
+    .name(\"{name}\")
     .shape(|| ::facet::{shape_of}(&|s: &{struct_name}<{generics}>| &s.{field_name}))
     .offset(::core::mem::offset_of!({struct_name}<{generics}>, {field_name}){maybe_base_field_offset})
     .flags({flags})
-- 
2.43.0


From b4238742091a5911dbdddb9436f3c534a9caa9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:21 +0000
Subject: [PATCH 39/41] fix: the invariants and container attributes of enums
 were ignored

---
 facet-derive-emit/src/lib.rs            | 53 +++++++++++++++++++++++++
 facet-derive-emit/src/process_enum.rs   | 22 ++++++++--
 facet-derive-emit/src/process_struct.rs | 53 ++-----------------------
 3 files changed, 75 insertions(+), 53 deletions(-)

diff --git a/facet-derive-emit/src/lib.rs b/facet-derive-emit/src/lib.rs
index 34604f1..2f0eb26 100644
--- a/facet-derive-emit/src/lib.rs
+++ b/facet-derive-emit/src/lib.rs
@@ -298,6 +298,59 @@ fn build_type_params(generics: Option<&GenericParams>) -> String {
     }
 }
 
+/// Generates the statements that set `vtable.invariants`, if the type has any
+pub(crate) fn build_maybe_invariants(attributes: &[Attribute], type_name: &str) -> String {
+    let invariant_attrs = attributes
+        .iter()
+        .filter_map(|attr| match &attr.body.content {
+            AttributeInner::Facet(facet_attr) => Some(&facet_attr.inner.content.0),
+            _ => None,
+        })
+        .flatten()
+        .filter_map(|inner| match &inner.value {
+            FacetInner::Invariants(invariant_inner) => Some(invariant_inner),
+            _ => None,
+        })
+        .collect::<Vec<_>>();
+
+    if invariant_attrs.is_empty() {
+        return String::new();
+    }
+
+    let tests = invariant_attrs
+        .iter()
+        .map(|invariant| {
+            let invariant_name = invariant.value.as_str();
+            format!(
+                r#"
+                if !value.{invariant_name}() {{
+                    return false;
+                }}
+                "#
+            )
+        })
+        .collect::<Vec<_>>()
+        .join("\n");
+
+    let invariant_fn = format!(
+        r#"
+        unsafe fn invariants<'mem>(value: ::facet::PtrConst<'mem>) -> bool {{
+            let value = value.get::<{type_name}>();
+            {tests}
+            true
+        }}
+        "#
+    );
+
+    format!(
+        r#"
+        {invariant_fn}
+
+        vtable.invariants = Some(invariants);
+        "#
+    )
+}
+
 fn build_container_attributes(attributes: &[Attribute]) -> String {
     let mut items: Vec<&str> = vec![];
 
diff --git a/facet-derive-emit/src/process_enum.rs b/facet-derive-emit/src/process_enum.rs
index 61c9a7a..0f16aee 100644
--- a/facet-derive-emit/src/process_enum.rs
+++ b/facet-derive-emit/src/process_enum.rs
@@ -164,6 +164,22 @@ pub(crate) fn process_enum(parsed: Enum) -> TokenStream {
         String::new()
     };
     let maybe_container_doc = build_maybe_doc(&parsed.attributes);
+    let set_attributes = build_container_attributes(&parsed.attributes);
+
+    let type_name_fn = format!(r#"|f, _opts| ::core::fmt::Write::write_str(f, "{enum_name}")"#);
+    let invariant_maybe =
+        build_maybe_invariants(&parsed.attributes, &format!("{enum_name}<{generics_use}>"));
+    let vtable = if invariant_maybe.is_empty() {
+        format!("::facet::value_vtable!(Self, {type_name_fn})")
+    } else {
+        format!(
+            r#"&const {{
+                let mut vtable = ::facet::value_vtable_inner!(Self, {type_name_fn});
+                {invariant_maybe}
+                vtable
+            }}"#
+        )
+    };
 
     // Generate the impl
     let output = format!(
@@ -185,10 +201,7 @@ unsafe impl<{generics_def}> ::facet::Facet for {enum_name}<{generics_use}> {wher
             .id(::facet::ConstTypeId::of::<Self>())
             .layout(::core::alloc::Layout::new::<Self>())
             {type_params}
-            .vtable(::facet::value_vtable!(
-                Self,
-                |f, _opts| ::core::fmt::Write::write_str(f, "{enum_name}")
-            ))
+            .vtable({vtable})
             .def(::facet::Def::Enum(::facet::EnumDef::builder()
                 // Use variant expressions that just reference the shadow structs
                 // which are now defined above
@@ -196,6 +209,7 @@ unsafe impl<{generics_def}> ::facet::Facet for {enum_name}<{generics_use}> {wher
                 .repr(::facet::EnumRepr::{repr_type})
                 .build()))
             {maybe_container_doc}
+            {set_attributes}
             .build()
     }};
 }}
diff --git a/facet-derive-emit/src/process_struct.rs b/facet-derive-emit/src/process_struct.rs
index 95371e1..346aa99 100644
--- a/facet-derive-emit/src/process_struct.rs
+++ b/facet-derive-emit/src/process_struct.rs
@@ -79,55 +79,10 @@ pub(crate) fn process_struct(parsed: Struct) -> TokenStream {
     };
     let maybe_container_doc = build_maybe_doc(&parsed.attributes);
 
-    let mut invariant_maybe = "".to_string();
-    let invariant_attrs = parsed
-        .attributes
-        .iter()
-        .filter_map(|attr| match &attr.body.content {
-            AttributeInner::Facet(facet_attr) => Some(&facet_attr.inner.content.0),
-            _ => None,
-        })
-        .flatten()
-        .filter_map(|inner| match &inner.value {
-            FacetInner::Invariants(invariant_inner) => Some(invariant_inner),
-            _ => None,
-        })
-        .collect::<Vec<_>>();
-
-    if !invariant_attrs.is_empty() {
-        let tests = invariant_attrs
-            .iter()
-            .map(|invariant| {
-                let invariant_name = invariant.value.as_str();
-                format!(
-                    r#"
-                    if !value.{invariant_name}() {{
-                        return false;
-                    }}
-                    "#
-                )
-            })
-            .collect::<Vec<_>>()
-            .join("\n");
-
-        let invariant_fn = format!(
-            r#"
-            unsafe fn invariants<'mem>(value: ::facet::PtrConst<'mem>) -> bool {{
-                let value = value.get::<{struct_name}<{generics_use}>>();
-                {tests}
-                true
-            }}
-            "#
-        );
-
-        invariant_maybe = format!(
-            r#"
-            {invariant_fn}
-
-            vtable.invariants = Some(invariants);
-            "#
-        );
-    }
+    let invariant_maybe = build_maybe_invariants(
+        &parsed.attributes,
+        &format!("{struct_name}<{generics_use}>"),
+    );
 
     // Generate the impl
     let output = format!(
-- 
2.43.0


From e9e89ecc6960fd242a297b8397b3ef324eb0acd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:47 +0000
Subject: [PATCH 40/41] fix: doc attributes given as raw strings were dropped

---
 facet-derive-emit/src/lib.rs  | 6 +++---
 facet-derive-parse/src/lib.rs | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/facet-derive-emit/src/lib.rs b/facet-derive-emit/src/lib.rs
index 2f0eb26..2259049 100644
--- a/facet-derive-emit/src/lib.rs
+++ b/facet-derive-emit/src/lib.rs
@@ -102,7 +102,7 @@ pub(crate) fn build_maybe_doc(attrs: &[Attribute]) -> String {
     let doc_lines: Vec<_> = attrs
         .iter()
         .filter_map(|attr| match &attr.body.content {
-            AttributeInner::Doc(doc_inner) => Some(doc_inner.value.value()),
+            AttributeInner::Doc(doc_inner) => Some(doc_inner.value.to_string()),
             _ => None,
         })
         .collect();
@@ -128,7 +128,7 @@ pub(crate) fn gen_struct_field(
     // Determine field flags
     let mut flags = "::facet::FieldFlags::EMPTY";
     let mut attribute_list: Vec<String> = vec![];
-    let mut doc_lines: Vec<&str> = vec![];
+    let mut doc_lines: Vec<String> = vec![];
     let mut shape_of = "shape_of";
     for attr in attrs {
         match &attr.body.content {
@@ -198,7 +198,7 @@ pub(crate) fn gen_struct_field(
                     }
                 }
             }
-            AttributeInner::Doc(doc_inner) => doc_lines.push(doc_inner.value.value()),
+            AttributeInner::Doc(doc_inner) => doc_lines.push(doc_inner.value.to_string()),
             AttributeInner::Repr(_) => {
                 // muffin
             }
diff --git a/facet-derive-parse/src/lib.rs b/facet-derive-parse/src/lib.rs
index c3f828d..b7ea073 100644
--- a/facet-derive-parse/src/lib.rs
+++ b/facet-derive-parse/src/lib.rs
@@ -162,7 +162,7 @@ unsynn! {
         /// The equality operator.
         pub _eq: Eq,
         /// The documentation content as a literal string.
-        pub value: LiteralString,
+        pub value: Literal,
     }
 
     /// Represents the inner content of a `repr` attribute, typically used for specifying
-- 
2.43.0


From f2c6cfd782169ff3691545826a0f68ecf99f3d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:55 +0000
Subject: [PATCH 41/41] fix: showing a JSON error next to a character that
 isn't ASCII panicked

---
 facet-json/src/deserialize/error.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/facet-json/src/deserialize/error.rs b/facet-json/src/deserialize/error.rs
index 851c0b1..87698ff 100644
--- a/facet-json/src/deserialize/error.rs
+++ b/facet-json/src/deserialize/error.rs
@@ -98,7 +98,7 @@ impl core::fmt::Display for JsonParseErrorWithContext<'_> {
 
         let source_id = "json";
 
-        let (span_start, span_end) = match &self.kind {
+        let (mut span_start, mut span_end) = match &self.kind {
             JsonErrorKind::StringAsNumber(s) => (self.pos.saturating_sub(s.len()), self.pos),
             // (what's in the input might be shorter: the length is that of the unescaped name)
             JsonErrorKind::UnknownField(f) | JsonErrorKind::DuplicateField(f) => (
@@ -115,6 +115,14 @@ impl core::fmt::Display for JsonParseErrorWithContext<'_> {
             }
         };
 
+        // Only whole characters can be pointed at
+        while !input_str.is_char_boundary(span_start) {
+            span_start -= 1;
+        }
+        while !input_str.is_char_boundary(span_end) {
+            span_end += 1;
+        }
+
         let mut report = Report::build(ReportKind::Error, (source_id, span_start..span_end))
             .with_message(format!("Error at {}", self.path.yellow()))
             .with_config(Config::new().with_index_type(IndexType::Byte));
-- 
2.43.0

