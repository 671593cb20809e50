From d1757a3342bd147250bbe6b43283bcc29c5cfd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:32 +0000
Subject: [PATCH 01/24] fix: removing an object releases its fields and its
 contract membership

object_remove took the object out of its arena before binding its fields, so
binding always failed: every object with a field reported an error, leaked its
fields and stayed in the contract's object set (and unregister_contract
panicked). Bind first, refuse a contract type the object does not belong to
before touching anything, and forget the membership.
---
 client/rust/src/baseline.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/client/rust/src/baseline.rs b/client/rust/src/baseline.rs
index 09f749d..682c160 100644
--- a/client/rust/src/baseline.rs
+++ b/client/rust/src/baseline.rs
@@ -191,15 +191,21 @@ impl Baseline {
     }
 
     pub fn object_remove<C: Contract>(&mut self, obj: ObjectHandle) -> Result<()> {
-        let o = if let Some(o) = self.objects.remove(obj) {
-            o
+        let contract = if let Some(o) = self.objects.get(obj) {
+            o.contract()
         } else {
             return Err(eyre!("Object did not exist, so it could not be removed"));
         };
 
-        // remove all fields of the object
-        let states = StatesIter::<C::States>::new(o.contract());
-        let channels = ChannelsIter::<C::Channels>::new(o.contract());
+        // Another contract's fields don't describe this object
+        if self.contract_data(contract)?.id() != C::ID {
+            return Err(eyre!("Object was not created with that contract!"));
+        }
+
+        // remove all fields of the object. The object itself has to outlive its
+        // fields, because it is needed to bind them
+        let states = StatesIter::<C::States>::new(contract);
+        let channels = ChannelsIter::<C::Channels>::new(contract);
 
         for s in states {
             apply_to_state_id!(s, |id| {
@@ -221,6 +227,11 @@ impl Baseline {
             })?;
         }
 
+        self.objects.remove(obj);
+        if let Some(c_data) = self.contracts.get_mut(contract) {
+            c_data.objects_mut().remove(&obj);
+        }
+
         Ok(())
     }
 
-- 
2.43.0


From a56bf1d42d13f5bdabd7446639bf31e6ecc0d48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:32 +0000
Subject: [PATCH 02/24] fix: nth on the field iterators yields the n-th
 remaining field

It read the type at the old position, returned the id of the following field
and advanced by one whatever n was, so nth(0), skip and step_by all returned
wrong ids; pos + n could also overflow.
---
 client/rust/src/contract/properties/mod.rs | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/client/rust/src/contract/properties/mod.rs b/client/rust/src/contract/properties/mod.rs
index 4e7a0d7..6dfab5b 100644
--- a/client/rust/src/contract/properties/mod.rs
+++ b/client/rust/src/contract/properties/mod.rs
@@ -36,18 +36,10 @@ macro_rules! prop_iter {
             }
 
             fn nth(&mut self, n: usize) -> Option<Self::Item> {
+                // Skip `n` elements, without running past the last field
                 let n_fields = S::enumerate_types().len();
-                let new_pos = self.pos + n;
-                if new_pos >= n_fields {
-                    self.pos = n_fields;
-                    return None;
-                }
-                let prop_type = S::enumerate_types()
-                    .get(self.pos)
-                    .copied()
-                    .expect("Should be impossible to be `None`");
-                self.pos += 1; // also discard the element at the new position
-                Some($dyn_name::new(self.contract, self.pos, prop_type))
+                self.pos = self.pos.saturating_add(n).min(n_fields);
+                self.next()
             }
         }
     };
-- 
2.43.0


From 6c8839fc75d8132697662b4b4d3e52f90d16ffea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:06 +0000
Subject: [PATCH 03/24] fix: rejecting a collaction reverses only the actions
 that were applied

The action that failed was pushed onto the list of actions to reverse. When it
was a write (for instance to the handle of a removed state), reversing it
applied it once more, which failed again and panicked instead of rejecting.
---
 client/rust/src/engine.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/rust/src/engine.rs b/client/rust/src/engine.rs
index b118553..f48ce1c 100644
--- a/client/rust/src/engine.rs
+++ b/client/rust/src/engine.rs
@@ -86,8 +86,8 @@ impl Engine {
                 }
                 Err(_) => {
                     // Reverse previously-applied Actions within this Collaction.
-                    applied_actions.push(action);
-                    // Go in FIFO order
+                    // The Action that failed was not applied, so it isn't one of them.
+                    // Last applied goes first
                     self.reverse_actions(applied_actions.into_iter().rev());
 
                     // Bail and reject this Collaction.
-- 
2.43.0


From 694193416ea32f72e231164313c02c2eb98294bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:16 +0000
Subject: [PATCH 04/24] fix: state writes of a collaction are applied

Applying any StateAction::Write panicked with todo!(), and one whose data had
another type than the state hit a debug assertion. Swap through the typed
handle; reject a write with the wrong type like any other failing action.
---
 .../contract/properties/states/dyn_handle.rs  | 41 ++++++++++++++++++-
 client/rust/src/engine.rs                     | 20 ++-------
 2 files changed, 44 insertions(+), 17 deletions(-)

diff --git a/client/rust/src/contract/properties/states/dyn_handle.rs b/client/rust/src/contract/properties/states/dyn_handle.rs
index d9d77fc..658f4d9 100644
--- a/client/rust/src/contract/properties/states/dyn_handle.rs
+++ b/client/rust/src/contract/properties/states/dyn_handle.rs
@@ -1,15 +1,19 @@
 use super::dyn_state::{DynStateMut, DynStateRef};
 use super::{handle::StateHandle, IStateHandle};
 use crate::apply_to_state_handle;
+use crate::baseline::Baseline;
 use crate::contract::properties::dynamic::__macro::DynEnum;
 use crate::contract::properties::dynamic::{
-    DynTpPropertyMut, DynTpPropertyRef, TpPrimitiveType, TpPropertyType,
+    DynTpPrimitive, DynTpProperty, DynTpPropertyMut, DynTpPropertyRef, DynTpVec, TpPrimitiveType,
+    TpPropertyType,
 };
 use crate::contract::properties::primitives;
 use crate::contract::properties::traits::ITpPropertyStatic;
 use crate::contract::ContractDataHandle;
 use crate::object::ObjectHandle;
 
+use eyre::{eyre, Result};
+
 DynEnum!(
     DynStateHandle,
     StateHandle | derive(Clone, Eq, Hash, PartialEq)
@@ -90,6 +94,41 @@ impl IStateHandle for DynStateHandle {
     }
 }
 
+impl DynStateHandle {
+    /// Swaps the value of the state with `data`.
+    ///
+    /// # Errors
+    /// Will error if the handle is invalid or if the type of `data` isn't the type
+    /// of the state. Neither the state nor `data` is modified in that case.
+    pub(crate) fn swap(&self, baseline: &mut Baseline, data: &mut DynTpProperty) -> Result<()> {
+        macro_rules! match_helper {
+            ($handle:ident, $handle_type:ident, $data:ident, $data_type:ident, $($variant:ident),+ $(,)?) => {
+                match ($handle, $data) {
+                    $(
+                        ($handle_type::$variant(h), $data_type::$variant(d)) => {
+                            std::mem::swap(&mut h.get_mut(baseline)?.value, d);
+                            Ok(())
+                        }
+                    )*
+                    _ => Err(eyre!("The type of the data did not match the type of the state")),
+                }
+            };
+        }
+
+        match (self, data) {
+            (Self::Primitive(h), DynTpProperty::Primitive(d)) => {
+                primitives!(idents, match_helper, h, DynStateHandlePrimitive, d, DynTpPrimitive)
+            }
+            (Self::Vec(h), DynTpProperty::Vec(d)) => {
+                primitives!(idents, match_helper, h, DynStateHandleVec, d, DynTpVec)
+            }
+            _ => Err(eyre!(
+                "The type of the data did not match the type of the state"
+            )),
+        }
+    }
+}
+
 impl Copy for DynStateHandlePrimitive {}
 impl Copy for DynStateHandleVec {}
 impl Copy for DynStateHandle {}
diff --git a/client/rust/src/engine.rs b/client/rust/src/engine.rs
index f48ce1c..e64d06c 100644
--- a/client/rust/src/engine.rs
+++ b/client/rust/src/engine.rs
@@ -117,24 +117,12 @@ impl Engine {
                         }
                     }
                     StateAction::Write { handle, data } => {
-                        // Get data from the Action and apply it to the BaselineFork.
-                        let state = self
-                            .realm_mut()
-                            .baseline_mut(BaselineKind::Fork)
-                            .state_mut(*handle)
-                            .wrap_err("Invalid Handle")?;
-
-                        // Sanity check that all types remain the same
-                        debug_assert!(state.0.prop_type() == data.prop_type());
-                        // TODO[SER-272]: handle DynTpProperty<DynTpData> and DynTpData in general
-
-                        // Swap the current value with the new data.
+                        // Swap the current value on the BaselineFork with the
+                        // Action's data.
                         // This optimizes applying the Action and allows
                         // for its simple reversal if needed.
-
-                        // TODO: hard ;(
-                        //mem::swap(&mut state.value, data);
-                        todo!("Figure out how to swap")
+                        let baseline = self.realm_mut().baseline_mut(BaselineKind::Fork);
+                        handle.swap(baseline, data)
                     }
                 }
             }
-- 
2.43.0


From 20804b51fe402d89fd2368bd3b9dd3b235a8c8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:16 +0000
Subject: [PATCH 05/24] fix: Ticks convert to seconds at ticks_per_second

as_secs and as_secs_f32 divided by 1024, the denominator of TimeScale, though a
tick is a millisecond: 1000 ticks were 0 seconds.
---
 client/rust/src/time/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/rust/src/time/mod.rs b/client/rust/src/time/mod.rs
index 1dc0a01..4ccb2bc 100644
--- a/client/rust/src/time/mod.rs
+++ b/client/rust/src/time/mod.rs
@@ -26,11 +26,11 @@ impl Ticks {
     /// The return value of this function truncates the actual `seconds` value.
     /// Use `Time.as_secs_f32()` for more precision.
     pub fn as_secs(&self) -> i32 {
-        self.0 >> 10 // normalize scalar factor (1024 denominator)
+        self.0 / Self::ticks_per_second()
     }
 
     pub fn as_secs_f32(&self) -> f32 {
-        (self.0 as f32) / 1024.0
+        (self.0 as f32) / (Self::ticks_per_second() as f32)
     }
 }
 
-- 
2.43.0


From de23130f29a30e5ac03e73ce5ea2319d6a4615e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:16 +0000
Subject: [PATCH 06/24] fix: scaling Ticks saturates instead of wrapping

A time scaled past the range of i32 wrapped around, so it could jump to the
opposite end of time; addition and subtraction already saturate.
---
 client/rust/src/time/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/client/rust/src/time/mod.rs b/client/rust/src/time/mod.rs
index 4ccb2bc..1b26416 100644
--- a/client/rust/src/time/mod.rs
+++ b/client/rust/src/time/mod.rs
@@ -57,7 +57,8 @@ impl Mul<TimeScale> for Ticks {
         let mut val = self.0 as i64;
         val *= other.numerator_as_i64();
         val >>= TimeScale::denominator_as_log2();
-        Self(val as i32)
+        // Saturate, like the other operations on `Ticks`
+        Self(val.clamp(i32::MIN as i64, i32::MAX as i64) as i32)
     }
 }
 
-- 
2.43.0


From 335566898a297a443da38a9bbf6135f8c3c053fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:16 +0000
Subject: [PATCH 07/24] fix: a keyframe with a NaN time doesn't unsort the
 other keyframes

Treating NaN as equal to every time isn't an order, so the sort could leave the
remaining keyframes out of order (and may panic on newer toolchains).
---
 client/rust/src/contract/properties/channels/channel.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/client/rust/src/contract/properties/channels/channel.rs b/client/rust/src/contract/properties/channels/channel.rs
index d70efce..cd4fa4b 100644
--- a/client/rust/src/contract/properties/channels/channel.rs
+++ b/client/rust/src/contract/properties/channels/channel.rs
@@ -26,11 +26,7 @@ impl<T: ITpProperty> Channel<T> {
     pub fn new(keyframes: impl Iterator<Item = Keyframe<T>>) -> Self {
         let mut keyframes: Vec<_> = keyframes.collect();
         // Sort keyframes by time
-        keyframes.sort_unstable_by(|a, b| {
-            a.time()
-                .partial_cmp(&b.time())
-                .unwrap_or(std::cmp::Ordering::Equal)
-        });
+        keyframes.sort_unstable_by(|a, b| a.time().total_cmp(&b.time()));
         Self(keyframes)
     }
 
-- 
2.43.0


From 6fe36d241ae4c48a4735429c829f2eecdc2406b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:55 +0000
Subject: [PATCH 08/24] fix: integer tweens run downwards and over wide ranges

IntTweenable computed the difference in T and the scaled difference as u32: a
descending tween never moved, a range wider than T overflowed, narrow types
panicked on large steps, and f32 missed the target for large values.
---
 .../src/contract/properties/channels/misc.rs  | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/client/rust/src/contract/properties/channels/misc.rs b/client/rust/src/contract/properties/channels/misc.rs
index 520a0d0..862667b 100644
--- a/client/rust/src/contract/properties/channels/misc.rs
+++ b/client/rust/src/contract/properties/channels/misc.rs
@@ -24,11 +24,21 @@ pub struct IntTweenable<T: keyframe::num_traits::PrimInt + AsPrimitive<f32> + Fr
 impl<T: keyframe::num_traits::PrimInt + AsPrimitive<f32> + FromPrimitive> CanTween
     for IntTweenable<T>
 {
-    fn ease(mut from: Self, to: Self, time: impl Float) -> Self {
-        let diff: f32 = (to.0 - from.0).as_();
-        let scaled_diff: u32 = (time.to_f32().unwrap() * diff) as _;
-        from.0 = from.0 + FromPrimitive::from_u32(scaled_diff).unwrap();
-        from
+    fn ease(from: Self, to: Self, time: impl Float) -> Self {
+        if time.is_one() {
+            return to;
+        }
+        // `i128` so that neither the sign nor the width of `T` limits the difference
+        let (start, end) = (from.0.to_i128().unwrap(), to.0.to_i128().unwrap());
+        let scaled_diff = (time.to_f64().unwrap() * (end - start) as f64) as i128;
+        let value = start.saturating_add(scaled_diff);
+        // Easing functions may overshoot
+        let limit = if value < start {
+            T::min_value()
+        } else {
+            T::max_value()
+        };
+        Self(T::from_i128(value).unwrap_or(limit))
     }
 }
 
-- 
2.43.0


From b97fad370c3bc5fac6d6f2038a82e20be1392442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:55 +0000
Subject: [PATCH 09/24] hook: expose Collaction construction and the tweens
 under cfg(tp_verif)

---
 client/rust/src/action/mod.rs                       | 6 ++++++
 client/rust/src/contract/properties/channels/mod.rs | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/client/rust/src/action/mod.rs b/client/rust/src/action/mod.rs
index 2e1f0c8..012e88e 100644
--- a/client/rust/src/action/mod.rs
+++ b/client/rust/src/action/mod.rs
@@ -24,6 +24,12 @@ pub struct Collaction {
 }
 
 impl Collaction {
+    /// Lets the verification harness submit collactions
+    #[cfg(tp_verif)]
+    pub fn new(actions: Vec<Action>) -> Self {
+        Self { actions }
+    }
+
     pub fn actions(&self) -> &[Action] {
         &self.actions
     }
diff --git a/client/rust/src/contract/properties/channels/mod.rs b/client/rust/src/contract/properties/channels/mod.rs
index 80232c1..e13e92a 100644
--- a/client/rust/src/contract/properties/channels/mod.rs
+++ b/client/rust/src/contract/properties/channels/mod.rs
@@ -3,7 +3,11 @@ pub mod dyn_channel;
 pub mod dyn_handle;
 mod handle;
 
+#[cfg(not(tp_verif))]
 mod misc;
+// Lets the verification harness reach the tweens
+#[cfg(tp_verif)]
+pub mod misc;
 
 pub use self::channel::{Channel, Keyframe};
 pub use self::dyn_channel::{apply_to_channel, apply_to_channel_mut, apply_to_channel_ref};
-- 
2.43.0


From 754d39881bdf5092dc5fca4555ff5f0ef46a5106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:37 +0000
Subject: [PATCH 10/24] fix: a jump tween doesn't jump ahead on negative
 progress

Easing functions may undershoot: at progress -1 and below the truncated progress is
not zero, and the tween gave the target.
---
 client/rust/src/contract/properties/channels/misc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/rust/src/contract/properties/channels/misc.rs b/client/rust/src/contract/properties/channels/misc.rs
index 862667b..d44d0d4 100644
--- a/client/rust/src/contract/properties/channels/misc.rs
+++ b/client/rust/src/contract/properties/channels/misc.rs
@@ -9,7 +9,7 @@ use keyframe::CanTween;
 pub struct JumpTweenable<T>(pub T);
 impl<T> CanTween for JumpTweenable<T> {
     fn ease(from: Self, to: Self, time: impl Float) -> Self {
-        if time.trunc().is_zero() {
+        if time < keyframe::num_traits::One::one() {
             from
         } else {
             to
-- 
2.43.0


From ef4b44c59f846e33b14d08e2c08013d336f42ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:05 +0000
Subject: [PATCH 11/24] fix: reserving nothing doesn't corrupt an arena

---
 crates/datastructures/arena/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/datastructures/arena/src/lib.rs b/crates/datastructures/arena/src/lib.rs
index 8476511..5a90917 100644
--- a/crates/datastructures/arena/src/lib.rs
+++ b/crates/datastructures/arena/src/lib.rs
@@ -73,7 +73,10 @@ impl<T> Arena<T> {
     }
 
     pub fn reserve(&mut self, additional_capacity: usize) {
-        self.0.reserve(additional_capacity)
+        // Reserving nothing would leave the inner arena with a corrupt free list.
+        if additional_capacity > 0 {
+            self.0.reserve(additional_capacity)
+        }
     }
 }
 impl<T> Default for Arena<T> {
-- 
2.43.0


From f5884889093ee446c1bb46c0ea222900bd0d4a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:14 +0000
Subject: [PATCH 12/24] fix: ChannelId__contract is exported under its full
 path

Its fourteen C functions were the only ones without the path prefix that every
other export (and the generated bindings) carries.
---
 client/rust/src/contract/properties/channels/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/client/rust/src/contract/properties/channels/mod.rs b/client/rust/src/contract/properties/channels/mod.rs
index e13e92a..999c5bb 100644
--- a/client/rust/src/contract/properties/channels/mod.rs
+++ b/client/rust/src/contract/properties/channels/mod.rs
@@ -135,6 +135,7 @@ pub mod c_api {
                     }
                     pub use [<ChannelId_ $t:camel>] as Monomorphized;
 
+                    #[remangle($path)]
                     #[ffi_export]
                     pub fn [<ChannelId_ $t:camel __contract>]<'a>(id: &'a Monomorphized) -> repr_c::Box<CContractDataHandle> {
                         repr_c::Box::new(CContractDataHandle::from(id.inner.contract()))
-- 
2.43.0


From a1bbd490f9933471ba0d4bbaabba02f5213287db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:10 +0000
Subject: [PATCH 13/24] fix: channel handles and ids can be released from C

Baseline__bind_channel hands out a box that no exported function could free;
states already had these functions.
---
 client/rust/src/contract/properties/channels/handle.rs | 6 ++++++
 client/rust/src/contract/properties/channels/mod.rs    | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/client/rust/src/contract/properties/channels/handle.rs b/client/rust/src/contract/properties/channels/handle.rs
index 459886d..b530201 100644
--- a/client/rust/src/contract/properties/channels/handle.rs
+++ b/client/rust/src/contract/properties/channels/handle.rs
@@ -77,6 +77,12 @@ pub mod c_api {
                 pub struct [<ChannelHandle _ $t:camel>] {
                     pub inner: super::ChannelHandle<$t>,
                 }
+
+                #[remangle($path)]
+                #[ffi_export]
+                pub fn [<ChannelHandle_ $t:camel __drop>](h: repr_c::Box<[<ChannelHandle_ $t:camel>]>) {
+                    drop(h)
+                }
             }
         };
         // recursive case
diff --git a/client/rust/src/contract/properties/channels/mod.rs b/client/rust/src/contract/properties/channels/mod.rs
index 999c5bb..b1d1d84 100644
--- a/client/rust/src/contract/properties/channels/mod.rs
+++ b/client/rust/src/contract/properties/channels/mod.rs
@@ -140,6 +140,12 @@ pub mod c_api {
                     pub fn [<ChannelId_ $t:camel __contract>]<'a>(id: &'a Monomorphized) -> repr_c::Box<CContractDataHandle> {
                         repr_c::Box::new(CContractDataHandle::from(id.inner.contract()))
                     }
+
+                    #[remangle($path)]
+                    #[ffi_export]
+                    pub fn [<ChannelId_ $t:camel __drop>](id: repr_c::Box<Monomorphized>) {
+                        drop(id)
+                    }
                 }
                 pub use [<_ChannelId_ $t:camel>]::Monomorphized as [<ChannelId_ $t:camel>];
             }
-- 
2.43.0


From 3aaf69c26703ad0eb2c2926665fe570e6a633b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:10 +0000
Subject: [PATCH 14/24] fix: lists handed to C can be released

The lists that ContractData__objects, Channel__keyframes and
Channel__keyframes_mut allocate could not be freed (and the elements of the
first not be reached) from C.
---
 .../src/contract/properties/channels/channel.rs    | 14 ++++++++++++++
 client/rust/src/object.rs                          |  2 ++
 2 files changed, 16 insertions(+)

diff --git a/client/rust/src/contract/properties/channels/channel.rs b/client/rust/src/contract/properties/channels/channel.rs
index cd4fa4b..591aed4 100644
--- a/client/rust/src/contract/properties/channels/channel.rs
+++ b/client/rust/src/contract/properties/channels/channel.rs
@@ -151,6 +151,20 @@ pub mod c_api {
                         let v: Vec<&'a mut Keyframe_Monomorphized> = chan.inner.keyframes_mut().iter_mut().map(|k| k.into()).collect();
                         v.into()
                     }
+
+                    /// Releases the result of `keyframes`, but not the keyframes themselves
+                    #[remangle($path)]
+                    #[ffi_export]
+                    pub fn [<Channel_ $t:camel __keyframes_drop>]<'a>(v: repr_c::Vec<&'a Keyframe_Monomorphized>) {
+                        drop(v)
+                    }
+
+                    /// Releases the result of `keyframes_mut`, but not the keyframes themselves
+                    #[remangle($path)]
+                    #[ffi_export]
+                    pub fn [<Channel_ $t:camel __keyframes_mut_drop>]<'a>(v: repr_c::Vec<&'a mut Keyframe_Monomorphized>) {
+                        drop(v)
+                    }
                 }
 
                 pub use [<_Keyframe_ $t:camel>]::Monomorphized as [<Keyframe_ $t:camel>];
diff --git a/client/rust/src/object.rs b/client/rust/src/object.rs
index 3a076c9..77d4abf 100644
--- a/client/rust/src/object.rs
+++ b/client/rust/src/object.rs
@@ -142,4 +142,6 @@ pub mod c_api {
     pub fn ObjectHandle__drop(c: repr_c::Box<ObjectHandle>) {
         drop(c)
     }
+
+    rsharp::rvec_fns!("tp_client::object", ObjectHandle);
 }
-- 
2.43.0


From 71dc88745d034859200125bbd549f52e73709a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:55 +0000
Subject: [PATCH 15/24] fix: BallContract hands Rust what it asks for

ObjectCreate gave a box of a contract handle where Rust reads a BallContract
(and leaked it), and ObjectRemove took the handle of a contract where Rust
removes an object.
---
 demos/unity_states/cs/src/BallContract.cs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/demos/unity_states/cs/src/BallContract.cs b/demos/unity_states/cs/src/BallContract.cs
index 9e551d6..c5f3ff9 100644
--- a/demos/unity_states/cs/src/BallContract.cs
+++ b/demos/unity_states/cs/src/BallContract.cs
@@ -70,7 +70,7 @@ public class BallContract : OpaqueWrapper<BallContract>
         }
         var p = new Ptr<ObjectHandle>(ffi.BallContract_object_create(
             baseline.Inner.Value.p,
-            this.Handle.StealInner().p,
+            this.Inner.Value.p,
             pos_x, pos_y, pos_z,
             euler_x, euler_y, euler_z,
             scale_x, scale_y, scale_z,
@@ -79,13 +79,13 @@ public class BallContract : OpaqueWrapper<BallContract>
         return new ObjectHandle(p, OwnershipSemantics.Owned);
     }
 
-    public static void ObjectRemove(Baseline baseline, ContractDataHandle contract)
+    public static void ObjectRemove(Baseline baseline, ObjectHandle obj)
     {
         if (baseline.OwnershipSemantics == OwnershipSemantics.SharedRef)
         {
             throw new MutabilityException("`baseline was not mutable!");
         }
 
-        ffi.BallContract_object_remove(baseline.Inner.Value.p, contract.StealInner().p);
+        ffi.BallContract_object_remove(baseline.Inner.Value.p, obj.StealInner().p);
     }
 }
-- 
2.43.0


From e4c449f6afafc022830d0c411de7927ead440c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:55 +0000
Subject: [PATCH 16/24] fix: ExampleContract.ObjectRemove gives the handle away

Rust releases the handle that it is given, and the wrapper released it again.
---
 client/contract_example/cs/src/ExampleContract.cs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/contract_example/cs/src/ExampleContract.cs b/client/contract_example/cs/src/ExampleContract.cs
index fb1336d..72ab0b0 100644
--- a/client/contract_example/cs/src/ExampleContract.cs
+++ b/client/contract_example/cs/src/ExampleContract.cs
@@ -81,7 +81,7 @@ namespace Teleportal.Example.Contract
             {
                 throw new OwnershipException("`baseline` must be mutable");
             }
-            generated.TpContractExampleExampleContractObjectRemove(baseline.Inner.Value.p, obj.Inner.Value.p);
+            generated.TpContractExampleExampleContractObjectRemove(baseline.Inner.Value.p, obj.StealInner().p);
         }
     }
 
-- 
2.43.0


From 9406eaa18a004e5fd6dc2641d819577645d1c2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:55 +0000
Subject: [PATCH 17/24] fix: only what is owned can be moved out of a C#
 wrapper

Moving a reference (x.Value = y.Value, new State_U8(y.Value)) made two owners of
one Rust value, which was then released twice.
---
 crates/rsharp/cs/src/RSharp.cs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/rsharp/cs/src/RSharp.cs b/crates/rsharp/cs/src/RSharp.cs
index 2506bfd..9f46df2 100644
--- a/crates/rsharp/cs/src/RSharp.cs
+++ b/crates/rsharp/cs/src/RSharp.cs
@@ -79,6 +79,10 @@ namespace RSharp
         /// use-after-free bugs.
         public T StealInner()
         {
+            if (this.ownershipSemantics != OwnershipSemantics.Owned)
+            {
+                throw new OwnershipException("Only an owned value can be moved");
+            }
             var result = this.inner.Value;
             this.inner = null;
             return result;
@@ -135,6 +139,10 @@ namespace RSharp
         /// use-after-free bugs.
         public Ptr<T> StealInner()
         {
+            if (this.ownershipSemantics != OwnershipSemantics.Owned)
+            {
+                throw new OwnershipException("Only an owned value can be moved");
+            }
             var result = this.inner.Value;
             this.inner = null;
             return result;
-- 
2.43.0


From 4dd2a04c78e93a50a7b27994537787c8eccd1fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:55 +0000
Subject: [PATCH 18/24] fix: a list takes only keyframes that are owned

push made the list a second owner of a keyframe that was only looked at.
---
 client/cs/src/RVec_Keyframe.cs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/client/cs/src/RVec_Keyframe.cs b/client/cs/src/RVec_Keyframe.cs
index 25db272..8c14a11 100644
--- a/client/cs/src/RVec_Keyframe.cs
+++ b/client/cs/src/RVec_Keyframe.cs
@@ -35,8 +35,7 @@ namespace Teleportal.Client.Contract.Properties.Channels
                 throw new System.Exception("Tried to call a method on a value that was already disposed!");
             }
             var shared = this.Inner.Value;
-            generated.__Internal.TpClientContractPropertiesChannelsRVecKeyframeU8Push((IntPtr)(&shared), e.Inner.Value.p);
-            e.Inner = null;  // move from `e`
+            generated.__Internal.TpClientContractPropertiesChannelsRVecKeyframeU8Push((IntPtr)(&shared), e.StealInner().p);
             this.Inner = shared;
         }
 
-- 
2.43.0


From 8e6f0fd18dad95458f152aa037295223f7ce5eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:55 +0000
Subject: [PATCH 19/24] fix: setting an element of a C# list hands Rust the
 list

Rust was given the address of the elements, and took them for the list.
---
 client/cs/src/RVec_Keyframe.cs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/client/cs/src/RVec_Keyframe.cs b/client/cs/src/RVec_Keyframe.cs
index 8c14a11..61c761c 100644
--- a/client/cs/src/RVec_Keyframe.cs
+++ b/client/cs/src/RVec_Keyframe.cs
@@ -59,11 +59,8 @@ namespace Teleportal.Client.Contract.Properties.Channels
                 {
                     throw new OwnershipException("`value` is not Owned");
                 }
-                var val_ptr = value.Inner.Value;
-                value.Inner = null;  // Move from `value`
-
-                var array = new Ptr<Keyframe_U8>(this.Inner.Value.ptr);
-                generated.__Internal.TpClientContractPropertiesChannelsRVecKeyframeU8Set(array.p, (ulong)index, val_ptr.p);
+                var inner = this.Inner.Value;
+                generated.__Internal.TpClientContractPropertiesChannelsRVecKeyframeU8Set((IntPtr)(&inner), (ulong)index, value.StealInner().p);
             }
         }
     }
-- 
2.43.0


From 455b029d501b2ad14468e1b0059436f1d558a21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:55 +0000
Subject: [PATCH 20/24] fix: RString("") is the empty string

It threw IndexOutOfRangeException.
---
 crates/rsharp/cs/src/RString.cs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/rsharp/cs/src/RString.cs b/crates/rsharp/cs/src/RString.cs
index ddabb79..93cf30c 100644
--- a/crates/rsharp/cs/src/RString.cs
+++ b/crates/rsharp/cs/src/RString.cs
@@ -17,7 +17,7 @@ namespace RSharp
             unsafe
             {
                 IntPtr rbox;
-                fixed (byte* first_element = &bytes[0])
+                fixed (byte* first_element = bytes.Length > 0 ? bytes : new byte[1])
                 {
                     SliceU8 raw_str = new SliceU8(first_element, (ulong)bytes.Length);
                     rbox = rsharp__String__copy_utf8(raw_str);
-- 
2.43.0


From a5f9369cbdde0df32f8158ef352c3399e880f977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:01 +0000
Subject: [PATCH 21/24] fix: TpPrimitive::U32 equals the kind U32, and U64 the
 kind U64

---
 client/serialize/rust/src/types/eq_impl.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/client/serialize/rust/src/types/eq_impl.rs b/client/serialize/rust/src/types/eq_impl.rs
index cb93862..0d15b87 100644
--- a/client/serialize/rust/src/types/eq_impl.rs
+++ b/client/serialize/rust/src/types/eq_impl.rs
@@ -67,7 +67,8 @@ impl PartialEq<crate::primitive::TpPrimitiveKind> for crate::primitive::TpPrimit
         match (*self, *other) {
             (Self::U8, O::U8)
             | (Self::U16, O::U16)
-            | (Self::U32, O::U64)
+            | (Self::U32, O::U32)
+            | (Self::U64, O::U64)
             | (Self::I8, O::I8)
             | (Self::I16, O::I16)
             | (Self::I32, O::I32)
-- 
2.43.0


From 4c6cf1d1af5c739551cda32d46119f66b449663d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:01 +0000
Subject: [PATCH 22/24] fix: deserializing fails instead of panicking when a
 state index is out of bounds

---
 client/serialize/rust/src/deserializer/new/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/client/serialize/rust/src/deserializer/new/mod.rs b/client/serialize/rust/src/deserializer/new/mod.rs
index 7e0fa65..dae2742 100644
--- a/client/serialize/rust/src/deserializer/new/mod.rs
+++ b/client/serialize/rust/src/deserializer/new/mod.rs
@@ -305,6 +305,13 @@ fn validate_obj_matches_contract<'a, C: rs::Contract>(
         .states()
         .ok_or(eyre!("Expected at least one state in the baseline!"))?;
 
+    // Every state of the object must exist in the flatbuffer
+    for s in obj_states_t {
+        if usize::try_from(s.idx()).unwrap() >= states_t.len() {
+            return Err(eyre!("Object referenced a state that doesn't exist"));
+        }
+    }
+
     // Iterator of all the states belonging to the object, but we have converted from
     // handles to the actual `fb::State`.
     let obj_states_t = obj_states_t
-- 
2.43.0


From 5aa1bfd7809b9c98ee044a02846065bc4f5b169f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:01 +0000
Subject: [PATCH 23/24] fix: deserializing fails instead of panicking when a
 state has an unknown type

---
 client/serialize/rust/src/deserializer/new/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/serialize/rust/src/deserializer/new/mod.rs b/client/serialize/rust/src/deserializer/new/mod.rs
index dae2742..b2aafb4 100644
--- a/client/serialize/rust/src/deserializer/new/mod.rs
+++ b/client/serialize/rust/src/deserializer/new/mod.rs
@@ -327,7 +327,7 @@ fn validate_obj_matches_contract<'a, C: rs::Contract>(
         if obj_state_t.p_type() != *expected_typ {
             return Err(eyre!(
                 "state {i}'s type was {:?} but expected {:?}",
-                obj_state_t.p_type().variant_name().unwrap(),
+                obj_state_t.p_type(),
                 *expected_typ,
             ));
         }
-- 
2.43.0


From 18cf9656908eeb220d7bef4707f288512c02b581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:01 +0000
Subject: [PATCH 24/24] fix: deserializing fails instead of panicking when a
 string state has no value

---
 client/serialize/rust/src/deserializer/new/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/client/serialize/rust/src/deserializer/new/mod.rs b/client/serialize/rust/src/deserializer/new/mod.rs
index b2aafb4..a93d6b8 100644
--- a/client/serialize/rust/src/deserializer/new/mod.rs
+++ b/client/serialize/rust/src/deserializer/new/mod.rs
@@ -392,7 +392,11 @@ impl<'a> Deserializer<'a> {
                 P::Bool => helper!(obj_state_t.p_as_bool().unwrap().v()),
                 P::F32 => helper!(obj_state_t.p_as_f32().unwrap().v()),
                 P::F64 => helper!(obj_state_t.p_as_f64().unwrap().v()),
-                P::FbString => helper!(obj_state_t.p_as_fb_string().unwrap().v().unwrap()),
+                P::FbString => helper!(obj_state_t
+                    .p_as_fb_string()
+                    .unwrap()
+                    .v()
+                    .ok_or_else(|| eyre!("String state was missing its value"))?),
                 P::tp_serialize_object_ObjectHandle => {
                     // Figure out what object was referenced in the state, and track it.
                     let referenced_obj_handle_t: fb::ObjectHandle = obj_state_t
-- 
2.43.0

