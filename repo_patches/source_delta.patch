From b31db8fe407c864ae889f3ceac6a80827552962f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:22 +0000
Subject: [PATCH 01/22] fix: do not fail with a PoisonError after a panic
 inside of a mock

A panic raised while a mutex of the generated code was locked (too many
calls, a sequence violation, a missing return value, or a panic in a
user's matcher or closure) poisoned it, so later calls, checkpoints and
even the drop of the mock or Context failed with a PoisonError, leaving
static expectations behind.  The protected data are never in an
inconsistent state, so ignore the poison.
---
 mockall_derive/src/mock_function.rs | 49 +++++++++++++++++------------
 1 file changed, 29 insertions(+), 20 deletions(-)

diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index 3a7a484..bd9e389 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -547,16 +547,12 @@ impl MockFunction {
                     use ::mockall::{ViaDebug, ViaNothing};
                     let no_match_msg = #no_match_msg;
                     #deref {
+                        // A panic during a previous call may have poisoned
+                        // the mutex, but the expectations are still valid.
                         let __mockall_guard = #outer_mod_path::get_expectations()
-                            .lock().unwrap();
-                        /*
-                         * TODO: catch panics, then gracefully release the mutex
-                         * so it won't be poisoned.  This requires bounding any
-                         * generic parameters with UnwindSafe
-                         */
-                        /* std::panic::catch_unwind(|| */
+                            .lock()
+                            .unwrap_or_else(::std::sync::PoisonError::into_inner);
                         __mockall_guard.#call #tbf(#(#call_exprs,)*)
-                        /*)*/
                     }.expect(&no_match_msg)
                 }
             )
@@ -588,7 +584,7 @@ impl MockFunction {
                 #(#attrs)*
                 {
                     let __mockall_timeses = #inner_mod_ident::get_expectations().lock()
-                        .unwrap()
+                        .unwrap_or_else(::std::sync::PoisonError::into_inner)
                         .checkpoint()
                         .collect::<Vec<_>>();
                 }
@@ -957,7 +953,8 @@ impl ToTokens for Common<'_> {
                     self.times.call()
                         .unwrap_or_else(|m| {
                             let desc = std::format!(
-                                "{}", self.matcher.lock().unwrap());
+                                "{}", self.matcher.lock()
+                                    .unwrap_or_else(::std::sync::PoisonError::into_inner));
                             panic!("{}: Expectation({}) {}", #funcname, desc,
                                 m);
                         });
@@ -983,7 +980,9 @@ impl ToTokens for Common<'_> {
                 #[allow(clippy::ptr_arg)]
                 #[allow(clippy::ref_option)]
                 fn matches #lg (&self, #( #argnames: &#predty, )*) -> bool {
-                    self.matcher.lock().unwrap().matches(#(#argnames, )*)
+                    self.matcher.lock()
+                        .unwrap_or_else(::std::sync::PoisonError::into_inner)
+                        .matches(#(#argnames, )*)
                 }
 
                 /// Forbid this expectation from ever being called.
@@ -1038,7 +1037,8 @@ impl ToTokens for Common<'_> {
                 fn drop(&mut self) {
                     if !::std::thread::panicking() {
                         let desc = std::format!(
-                            "{}", self.matcher.lock().unwrap());
+                            "{}", self.matcher.lock()
+                                    .unwrap_or_else(::std::sync::PoisonError::into_inner));
                         match self.times.is_satisfied() {
                             ::mockall::ExpectedCalls::TooFew => {
                                 panic!("{}: Expectation({}) called {} time(s) which is fewer than expected {}",
@@ -1611,7 +1611,7 @@ impl ToTokens for Context<'_> {
                 #v fn do_checkpoint() {
                     let __mockall_timeses = get_expectations()
                         .lock()
-                        .unwrap()
+                        .unwrap_or_else(::std::sync::PoisonError::into_inner)
                         .checkpoint()
                         .collect::<Vec<_>>();
                 }
@@ -1621,7 +1621,9 @@ impl ToTokens for Context<'_> {
                 #v fn expect #meth_ig ( &self,) -> ExpectationGuard #e_tg
                     #meth_wc
                 {
-                    ExpectationGuard::new(get_expectations().lock().unwrap())
+                    ExpectationGuard::new(
+                        get_expectations().lock()
+                            .unwrap_or_else(::std::sync::PoisonError::into_inner))
                 }
             }
             impl #ty_ig Default for Context #ty_tg #ty_wc {
@@ -1638,9 +1640,11 @@ impl ToTokens for Context<'_> {
                         // Drain all expectations so other tests can run with a
                         // blank slate.  But ignore errors so we don't
                         // double-panic.
-                        let _ = get_expectations()
+                        let __mockall_timeses = get_expectations()
                             .lock()
-                            .map(|mut g| g.checkpoint().collect::<Vec<_>>());
+                            .unwrap_or_else(::std::sync::PoisonError::into_inner)
+                            .checkpoint()
+                            .collect::<Vec<_>>();
                     } else {
                         // Verify expectations are satisfied
                         Self::do_checkpoint();
@@ -2031,7 +2035,8 @@ impl ToTokens for RefExpectation<'_> {
                     self.common.call(&#desc);
                     self.rfunc.call().unwrap_or_else(|m| {
                         let desc = std::format!(
-                            "{}", self.common.matcher.lock().unwrap());
+                            "{}", self.common.matcher.lock()
+                                    .unwrap_or_else(::std::sync::PoisonError::into_inner));
                         panic!("{}: Expectation({}) {}", #funcname, desc,
                             m);
                     })
@@ -2096,7 +2101,8 @@ impl ToTokens for RefMutExpectation<'_> {
                     use ::mockall::{ViaDebug, ViaNothing};
                     self.common.call(&#desc);
                     let desc = std::format!(
-                        "{}", self.common.matcher.lock().unwrap());
+                        "{}", self.common.matcher.lock()
+                                    .unwrap_or_else(::std::sync::PoisonError::into_inner));
                     self.rfunc.call_mut(#(#argnames, )*).unwrap_or_else(|m| {
                             panic!("{}: Expectation({}) {}", #funcname, desc,
                                    m);
@@ -2185,10 +2191,13 @@ impl ToTokens for StaticExpectation<'_> {
                 {
                     use ::mockall::{ViaDebug, ViaNothing};
                     self.common.call(&#desc);
-                    self.rfunc.lock().unwrap().call_mut(#(#argnames, )*)
+                    self.rfunc.lock()
+                        .unwrap_or_else(::std::sync::PoisonError::into_inner)
+                        .call_mut(#(#argnames, )*)
                         .unwrap_or_else(|message| {
                             let desc = std::format!(
-                                "{}", self.common.matcher.lock().unwrap());
+                                "{}", self.common.matcher.lock()
+                                    .unwrap_or_else(::std::sync::PoisonError::into_inner));
                             panic!("{}: Expectation({}) {}", #funcname, desc,
                                    message);
                         })
-- 
2.43.0


From bf7301213f54112a58222e5e736beefa6be67c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:36 +0000
Subject: [PATCH 02/22] fix: reject times(..0) and accept bounds up to
 usize::MAX

times(..0) is an empty range, but it was not rejected like the others and
made the first call underflow.  times(usize::MAX), times(..=usize::MAX)
and times(n..=usize::MAX) overflowed.
---
 mockall/src/lib.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mockall/src/lib.rs b/mockall/src/lib.rs
index 88b33dc..c8d76ee 100644
--- a/mockall/src/lib.rs
+++ b/mockall/src/lib.rs
@@ -1524,7 +1524,7 @@ impl Default for TimesRange {
 
 impl From<usize> for TimesRange {
     fn from(n: usize) -> TimesRange {
-        TimesRange(n..(n+1))
+        TimesRange(n..n.saturating_add(1))
     }
 }
 
@@ -1550,19 +1550,20 @@ impl From<RangeFull> for TimesRange {
 impl From<RangeInclusive<usize>> for TimesRange {
     fn from(r: RangeInclusive<usize>) -> TimesRange {
         assert!(r.end() >= r.start(), "Backwards range");
-        TimesRange(*r.start()..*r.end() + 1)
+        TimesRange(*r.start()..r.end().saturating_add(1))
     }
 }
 
 impl From<RangeTo<usize>> for TimesRange {
     fn from(r: RangeTo<usize>) -> TimesRange {
+        assert!(r.end > 0, "Backwards range");
         TimesRange(0..r.end)
     }
 }
 
 impl From<RangeToInclusive<usize>> for TimesRange {
     fn from(r: RangeToInclusive<usize>) -> TimesRange {
-        TimesRange(0..r.end + 1)
+        TimesRange(0..r.end.saturating_add(1))
     }
 }
 
@@ -1619,7 +1620,7 @@ impl Times {
     /// Is it required that this expectation be called an exact number of times,
     /// or may it be satisfied by a range of call counts?
     pub fn is_exact(&self) -> bool {
-        (self.range.0.end - self.range.0.start) == 1
+        (self.range.0.end - self.range.0.start) <= 1
     }
 
     /// Has this expectation already been called the expected number of times?
-- 
2.43.0


From e94cd445b065f651b7c13c10b712f3bffb224bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:22 +0000
Subject: [PATCH 03/22] fix: an expectation with times(0) must not block its
 sequence

Nothing can ever satisfy it, so every later member of the sequence failed
with a sequence violation.
---
 mockall_derive/src/mock_function.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index bd9e389..d9bf92a 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -969,7 +969,11 @@ impl ToTokens for Common<'_> {
                 {
                     assert!(self.times.is_exact(),
                         "Only Expectations with an exact call count have sequences");
-                    self.seq_handle = Some(__mockall_seq.next_handle());
+                    // An expectation that must never be called is already
+                    // satisfied, so it must not block its successors.
+                    if self.times.maximum() > 0 {
+                        self.seq_handle = Some(__mockall_seq.next_handle());
+                    }
                     self
                 }
 
-- 
2.43.0


From b60fb3217193d4a814dc47652b91347472d25a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:22 +0000
Subject: [PATCH 04/22] fix: don't abort when calling a return_once_st mock on
 the wrong thread

The closure got moved out of the expectation before checking the thread,
and dropping it during the resulting panic panicked again.
---
 mockall_derive/src/mock_function.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index d9bf92a..9233515 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -1978,7 +1978,11 @@ impl ToTokens for StaticRfunc<'_> {
                                 unreachable!()
                             }
                         },
-                        Rfunc::OnceSt(_) => {
+                        Rfunc::OnceSt(__mockall_f) => {
+                            // Panic on the wrong thread before taking the
+                            // closure out, because dropping it there would
+                            // panic, too.
+                            let _ = __mockall_f.get();
                             if let Rfunc::OnceSt(mut __mockall_f) =
                                 mem::replace(self, Rfunc::Expired) {
                                 ::std::result::Result::Ok((__mockall_f.into_inner())(#(#argnames,)*))
-- 
2.43.0


From 63129a0849a7c34d1026690da30fca7a00a1c5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:38 +0000
Subject: [PATCH 05/22] fix: don't abort when a panic drops a mock on a foreign
 thread

Dropping a Fragile on the wrong thread panics.  If a mock with
single-threaded closures was dropped there because of a panic, or if it
held several of them, then the second panic aborted the process.  Leak the
closures in that case.
---
 mockall/src/lib.rs | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/mockall/src/lib.rs b/mockall/src/lib.rs
index c8d76ee..0107dde 100644
--- a/mockall/src/lib.rs
+++ b/mockall/src/lib.rs
@@ -1159,8 +1159,6 @@ use std::{
 
 #[doc(hidden)]
 pub use downcast::{Any, Downcast};
-#[doc(hidden)]
-pub use fragile::Fragile;
 
 pub use predicates::{
     boolean::PredicateBooleanExt,
@@ -1426,6 +1424,42 @@ pub use mockall_derive::concretize;
 /// ```
 pub use mockall_derive::mock;
 
+/// Like [`fragile::Fragile`], but if it gets dropped on the wrong thread while
+/// that thread is already panicking, then leak the contents.  A second panic
+/// would abort the process.
+#[doc(hidden)]
+pub struct Fragile<T>(Option<fragile::Fragile<T>>);
+
+#[doc(hidden)]
+impl<T> Fragile<T> {
+    pub fn new(t: T) -> Self {
+        Fragile(Some(fragile::Fragile::new(t)))
+    }
+
+    pub fn get(&self) -> &T {
+        self.0.as_ref().unwrap().get()
+    }
+
+    pub fn get_mut(&mut self) -> &mut T {
+        self.0.as_mut().unwrap().get_mut()
+    }
+
+    pub fn into_inner(mut self) -> T {
+        let _ = self.get();     // Panic while we still own the contents
+        self.0.take().unwrap().into_inner()
+    }
+}
+
+impl<T> Drop for Fragile<T> {
+    fn drop(&mut self) {
+        if let Some(f) = self.0.take() {
+            if !f.is_valid() && std::thread::panicking() {
+                std::mem::forget(f);
+            }
+        }
+    }
+}
+
 #[doc(hidden)]
 pub trait AnyExpectations : Any + Send + Sync {}
 downcast!(dyn AnyExpectations);
-- 
2.43.0


From ac493f44d3a04d86851eafc939f6c8a6b795a43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:42 +0000
Subject: [PATCH 06/22] fix: make selecting an expectation and counting the
 call atomic

When several threads called the same mock method, an expectation could be
selected by more calls than it allows, even though a later expectation could
have served them, and calls to a member of a Sequence could spuriously be
reported as sequence violations.
---
 mockall/src/lib.rs                  |  58 +++++++-------
 mockall_derive/src/mock_function.rs | 114 +++++++++++++++-------------
 2 files changed, 91 insertions(+), 81 deletions(-)

diff --git a/mockall/src/lib.rs b/mockall/src/lib.rs
index 0107dde..00e7a33 100644
--- a/mockall/src/lib.rs
+++ b/mockall/src/lib.rs
@@ -1153,6 +1153,8 @@ use std::{
           RangeToInclusive},
     sync::{
         Arc,
+        Mutex,
+        PoisonError,
         atomic::{AtomicUsize, Ordering}
     },
 };
@@ -1636,6 +1638,15 @@ impl Times {
         }
     }
 
+    /// Like [`Times::call`], but if this expectation has already been called
+    /// the maximum allowed number of times, then don't count the call and
+    /// return false.
+    pub fn try_call(&self) -> bool {
+        self.count.fetch_update(Ordering::Relaxed, Ordering::Relaxed, |c|
+            (c < self.maximum()).then_some(c + 1)
+        ).is_ok()
+    }
+
     pub fn any(&mut self) {
         self.range.0 = 0..usize::MAX;
     }
@@ -1645,12 +1656,6 @@ impl Times {
         self.count.load(Ordering::Relaxed)
     }
 
-    /// Has this expectation already been called the maximum allowed number of
-    /// times?
-    pub fn is_done(&self) -> bool {
-        self.count.load(Ordering::Relaxed) >= self.range.0.end - 1
-    }
-
     /// Is it required that this expectation be called an exact number of times,
     /// or may it be satisfied by a range of call counts?
     pub fn is_exact(&self) -> bool {
@@ -1720,34 +1725,29 @@ pub struct SeqHandle {
 }
 
 impl SeqHandle {
-    /// Tell the Sequence that this expectation has been fully satisfied
-    pub fn satisfy(&self) {
-        self.inner.satisfy(self.seq);
-    }
-
-    /// Verify that this handle was called in the correct order
-    pub fn verify(&self, desc: &str) {
-        self.inner.verify(self.seq, desc);
+    /// Atomically record a call to this handle's expectation, unless it has
+    /// already been called the maximum allowed number of times.  If that fully
+    /// satisfies the expectation, then advance the Sequence.
+    ///
+    /// Returns `None` if the call wasn't recorded, or whether it was made in
+    /// the correct order if it was.
+    pub fn claim(&self, times: &Times) -> Option<bool> {
+        let mut level = self.inner.satisfaction_level.lock()
+            .unwrap_or_else(PoisonError::into_inner);
+        if !times.try_call() {
+            return None;
+        }
+        let in_order = *level == self.seq;
+        if in_order && ExpectedCalls::TooFew != times.is_satisfied() {
+            *level += 1;
+        }
+        Some(in_order)
     }
 }
 
 #[derive(Default)]
 struct SeqInner {
-    satisfaction_level: AtomicUsize,
-}
-
-impl SeqInner {
-    /// Record the call identified by `seq` as fully satisfied.
-    fn satisfy(&self, seq: usize) {
-        let old_sl = self.satisfaction_level.fetch_add(1, Ordering::Relaxed);
-        assert_eq!(old_sl, seq, "Method sequence violation.  Was an already-satisfied method called another time?");
-    }
-
-    /// Verify that the call identified by `seq` was called in the correct order
-    fn verify(&self, seq: usize, desc: &str) {
-        assert_eq!(seq, self.satisfaction_level.load(Ordering::Relaxed),
-            "{desc}: Method sequence violation")
-    }
+    satisfaction_level: Mutex<usize>,
 }
 
 /// Used to enforce that mock calls must happen in the sequence specified.
diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index 9233515..223664c 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -949,19 +949,33 @@ impl ToTokens for Common<'_> {
             }
 
             impl #ig Common #tg #wc {
-                fn call(&self, desc: &str) {
-                    self.times.call()
-                        .unwrap_or_else(|m| {
-                            let desc = std::format!(
-                                "{}", self.matcher.lock()
-                                    .unwrap_or_else(::std::sync::PoisonError::into_inner));
-                            panic!("{}: Expectation({}) {}", #funcname, desc,
-                                m);
-                        });
-                    self.verify_sequence(desc);
-                    if ::mockall::ExpectedCalls::TooFew != self.times.is_satisfied() {
-                        self.satisfy_sequence()
+                /// Try to record a call to this expectation.
+                ///
+                /// Selecting an expectation and recording the call must be a
+                /// single atomic step, because other threads may be calling
+                /// the same mock method.
+                ///
+                /// Returns `None` if the expectation has already been called
+                /// the maximum allowed number of times, unless it's the
+                /// `only` expectation.  In that case, panics.  Otherwise,
+                /// returns whether the call was made in sequence order.
+                fn claim(&self, only: bool) -> Option<bool> {
+                    let in_order = if let Some(handle) = &self.seq_handle {
+                        handle.claim(&self.times)
+                    } else {
+                        self.times.try_call().then_some(true)
+                    };
+                    if in_order.is_none() && only {
+                        self.times.call()
+                            .unwrap_or_else(|m| {
+                                let desc = std::format!(
+                                    "{}", self.matcher.lock()
+                                        .unwrap_or_else(::std::sync::PoisonError::into_inner));
+                                panic!("{}: Expectation({}) {}", #funcname, desc,
+                                    m);
+                            });
                     }
+                    in_order
                 }
 
                 fn in_sequence(&mut self, __mockall_seq: &mut ::mockall::Sequence)
@@ -977,10 +991,6 @@ impl ToTokens for Common<'_> {
                     self
                 }
 
-                fn is_done(&self) -> bool {
-                    self.times.is_done()
-                }
-
                 #[allow(clippy::ptr_arg)]
                 #[allow(clippy::ref_option)]
                 fn matches #lg (&self, #( #argnames: &#predty, )*) -> bool {
@@ -994,12 +1004,6 @@ impl ToTokens for Common<'_> {
                     self.times.never();
                 }
 
-                fn satisfy_sequence(&self) {
-                    if let Some(__mockall_handle) = &self.seq_handle {
-                        __mockall_handle.satisfy()
-                    }
-                }
-
                 /// Expect this expectation to be called any number of times
                 /// contained with the given range.
                 fn times<MockallR>(&mut self, __mockall_r: MockallR)
@@ -1029,12 +1033,6 @@ impl ToTokens for Common<'_> {
                              ::mockall::Fragile::new(Box::new(__mockall_f))
                         );
                 }
-
-                fn verify_sequence(&self, desc: &str) {
-                    if let Some(__mockall_handle) = &self.seq_handle {
-                        __mockall_handle.verify(desc)
-                    }
-                }
             }
 
             impl #ig Drop for Common #tg #wc {
@@ -1119,8 +1117,9 @@ impl ToTokens for CommonExpectationMethods<'_> {
                 self
             }
 
-            fn is_done(&self) -> bool {
-                self.common.is_done()
+            /// Try to record a call.
+            fn claim(&self, __mockall_only: bool) -> Option<bool> {
+                self.common.claim(__mockall_only)
             }
 
             /// Validate this expectation's matcher.
@@ -2037,10 +2036,12 @@ impl ToTokens for RefExpectation<'_> {
             #[allow(clippy::unused_unit)]
             impl #ig Expectation #tg #wc {
                 /// Call this [`Expectation`] as if it were the real method.
-                #v fn call #lg (&self, #(#argnames: #argty, )*) -> #output
+                #v fn call #lg (&self, __mockall_in_order: bool,
+                    #(#argnames: #argty, )*) -> #output
                 {
                     use ::mockall::{ViaDebug, ViaNothing};
-                    self.common.call(&#desc);
+                    assert!(__mockall_in_order,
+                            "{}: Method sequence violation", &#desc);
                     self.rfunc.call().unwrap_or_else(|m| {
                         let desc = std::format!(
                             "{}", self.common.matcher.lock()
@@ -2103,11 +2104,12 @@ impl ToTokens for RefMutExpectation<'_> {
             #[allow(clippy::unused_unit)]
             impl #ig Expectation #tg #wc {
                 /// Simulating calling the real method for this expectation
-                #v fn call_mut #lg (&mut self, #(#argnames: #argty, )*)
-                    -> &mut #owned_output
+                #v fn call_mut #lg (&mut self, __mockall_in_order: bool,
+                    #(#argnames: #argty, )*) -> &mut #owned_output
                 {
                     use ::mockall::{ViaDebug, ViaNothing};
-                    self.common.call(&#desc);
+                    assert!(__mockall_in_order,
+                            "{}: Method sequence violation", &#desc);
                     let desc = std::format!(
                         "{}", self.common.matcher.lock()
                                     .unwrap_or_else(::std::sync::PoisonError::into_inner));
@@ -2195,10 +2197,12 @@ impl ToTokens for StaticExpectation<'_> {
             impl #ig Expectation #tg #wc {
                 /// Call this [`Expectation`] as if it were the real method.
                 #[doc(hidden)]
-                #v fn call #lg (&self, #(#argnames: #argty, )* ) -> #output
+                #v fn call #lg (&self, __mockall_in_order: bool,
+                    #(#argnames: #argty, )* ) -> #output
                 {
                     use ::mockall::{ViaDebug, ViaNothing};
-                    self.common.call(&#desc);
+                    assert!(__mockall_in_order,
+                            "{}: Method sequence violation", &#desc);
                     self.rfunc.lock()
                         .unwrap_or_else(::std::sync::PoisonError::into_inner)
                         .call_mut(#(#argnames, )*)
@@ -2367,11 +2371,13 @@ impl ToTokens for RefExpectations<'_> {
                     -> Option<#output>
                 {
                     self.0.iter()
-                        .find(|__mockall_e|
-                              __mockall_e.matches(#(#predexprs, )*) &&
-                              (!__mockall_e.is_done() || self.0.len() == 1))
-                        .map(move |__mockall_e|
-                             __mockall_e.call(#(#argnames),*)
+                        .filter(|__mockall_e|
+                                __mockall_e.matches(#(#predexprs, )*))
+                        .find_map(|__mockall_e|
+                                __mockall_e.claim(self.0.len() == 1)
+                                    .map(|__mockall_ord| (__mockall_e, __mockall_ord)))
+                        .map(move |(__mockall_e, __mockall_ord)|
+                             __mockall_e.call(__mockall_ord, #(#argnames, )*)
                         )
                 }
 
@@ -2406,11 +2412,13 @@ impl ToTokens for RefMutExpectations<'_> {
                 {
                     let __mockall_n = self.0.len();
                     self.0.iter_mut()
-                        .find(|__mockall_e|
-                              __mockall_e.matches(#(#predexprs, )*) &&
-                              (!__mockall_e.is_done() || __mockall_n == 1))
-                        .map(move |__mockall_e|
-                             __mockall_e.call_mut(#(#argnames, )*)
+                        .filter(|__mockall_e|
+                                __mockall_e.matches(#(#predexprs, )*))
+                        .find_map(|__mockall_e|
+                                __mockall_e.claim(__mockall_n == 1)
+                                    .map(|__mockall_ord| (__mockall_e, __mockall_ord)))
+                        .map(move |(__mockall_e, __mockall_ord)|
+                             __mockall_e.call_mut(__mockall_ord, #(#argnames, )*)
                         )
                 }
 
@@ -2444,11 +2452,13 @@ impl ToTokens for StaticExpectations<'_> {
                     -> Option<#output>
                 {
                     self.0.iter()
-                        .find(|__mockall_e|
-                              __mockall_e.matches(#(#predexprs, )*) &&
-                              (!__mockall_e.is_done() || self.0.len() == 1))
-                        .map(move |__mockall_e|
-                             __mockall_e.call(#(#argnames, )*)
+                        .filter(|__mockall_e|
+                                __mockall_e.matches(#(#predexprs, )*))
+                        .find_map(|__mockall_e|
+                                __mockall_e.claim(self.0.len() == 1)
+                                    .map(|__mockall_ord| (__mockall_e, __mockall_ord)))
+                        .map(move |(__mockall_e, __mockall_ord)|
+                             __mockall_e.call(__mockall_ord, #(#argnames, )*)
                         )
                 }
 
-- 
2.43.0


From 51cb7584eabf7f9ab43078b64efa4bba13af0f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:26 +0000
Subject: [PATCH 07/22] fix: double raw identifiers of types as types, not as
 modules

---
 mockall_double/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mockall_double/src/lib.rs b/mockall_double/src/lib.rs
index 464c949..7c4c67c 100644
--- a/mockall_double/src/lib.rs
+++ b/mockall_double/src/lib.rs
@@ -16,6 +16,7 @@ use proc_macro2::{Span, TokenStream};
 use quote::{format_ident, quote};
 use syn::{
     *,
+    ext::IdentExt,
     spanned::Spanned
 };
 
@@ -180,7 +181,8 @@ fn mock_itemuse(orig: &mut ItemUse) {
 }
 
 fn mock_ident(i: &Ident) -> Ident {
-    let is_type = format!("{i}")
+    // Ignore the "r#" prefix of raw identifiers
+    let is_type = format!("{}", i.unraw())
         .chars()
         .next()
         .expect("zero-length ident?")
-- 
2.43.0


From 6ee2dad5cb96c3c7aa1373a6a9df0dfa9784e0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:35 +0000
Subject: [PATCH 08/22] fix: support trait object arguments with raw
 identifiers as names

---
 mockall_derive/src/mockable_struct.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mockall_derive/src/mockable_struct.rs b/mockall_derive/src/mockable_struct.rs
index 108923c..5b2dd1f 100644
--- a/mockall_derive/src/mockable_struct.rs
+++ b/mockall_derive/src/mockable_struct.rs
@@ -4,6 +4,7 @@ use quote::{format_ident, quote};
 use syn::{
     *,
     parse::{Parse, ParseStream},
+    ext::IdentExt,
     spanned::Spanned
 };
 
@@ -54,7 +55,7 @@ fn add_lifetime_parameters(sig: &mut Signature) {
                     format_ident!("dont_care")
                 }
             };
-            let s = format!("'__mockall_{arg_ident}");
+            let s = format!("'__mockall_{}", arg_ident.unraw());
             let span = Span::call_site();
             let lt = Lifetime::new(&s, span);
             to.bounds.push(TypeParamBound::Lifetime(lt.clone()));
-- 
2.43.0


From 27b3a037288d63d937d896680612d12dccd081b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:56 +0000
Subject: [PATCH 09/22] fix: support returning references to trait objects with
 several bounds

---
 mockall_derive/src/mock_function.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index 223664c..3a1a8a3 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -34,7 +34,12 @@ use crate::{
 /// Returns `true` if it was necessary to box the type.
 fn dedynify(ty: &mut Type) -> bool {
     if let Type::Reference(ref mut tr) = ty {
-        if let Type::TraitObject(ref tto) = tr.elem.as_ref() {
+        let mut elem = tr.elem.as_ref();
+        // A trait object with more than one bound must be parenthesized
+        while let Type::Paren(tp) = elem {
+            elem = tp.elem.as_ref();
+        }
+        if let Type::TraitObject(tto) = elem {
             if let Some(lt) = &tr.lifetime {
                 if lt.ident == "static" {
                     // For methods that return 'static references, the user can
-- 
2.43.0


From 3c57235baf72ec29c925ad170d206e4364c04464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:57 +0000
Subject: [PATCH 10/22] fix: support mocking methods with pub(self) visibility

---
 mockall_derive/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mockall_derive/src/lib.rs b/mockall_derive/src/lib.rs
index 77f7cbc..dd99b34 100644
--- a/mockall_derive/src/lib.rs
+++ b/mockall_derive/src/lib.rs
@@ -1250,6 +1250,9 @@ fn expectation_visibility(vis: &Visibility, levels: usize)
     let in_token = Token![in](vis.span());
     let super_token = Token![super](vis.span());
     match vis {
+        // pub(self) is the same as private
+        Visibility::Restricted(vr) if vr.path.is_ident("self") =>
+            expectation_visibility(&Visibility::Inherited, levels),
         Visibility::Inherited => {
             // Private items need pub(in super::[...]) for each level
             let mut path = Path::from(super_token);
@@ -1267,7 +1270,6 @@ fn expectation_visibility(vis: &Visibility, levels: usize)
             // crate => don't change
             // in crate::* => don't change
             // super => in super::super::super
-            // self => in super::super
             // in anything_else => super::super::anything_else
             if vr.path.segments.first().unwrap().ident == "crate" {
                 Visibility::Restricted(vr.clone())
-- 
2.43.0


From 4da46991911e87d5e2c17213176b3dfa428a2dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:50 +0000
Subject: [PATCH 11/22] fix: don't let an argument's name shadow the mock's own
 local variables

An argument called `no_match_msg`, or `desc` in a method that returns a
mutable reference, collided with a local variable of the generated code.
At best the mock didn't compile; for concretized methods the expectation
saw mockall's error message in place of the argument.
---
 mockall_derive/src/mock_function.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index 3a1a8a3..65d7476 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -550,7 +550,7 @@ impl MockFunction {
                 #no_mangle
                 #vis #sig {
                     use ::mockall::{ViaDebug, ViaNothing};
-                    let no_match_msg = #no_match_msg;
+                    let __mockall_no_match_msg = #no_match_msg;
                     #deref {
                         // A panic during a previous call may have poisoned
                         // the mutex, but the expectations are still valid.
@@ -558,7 +558,7 @@ impl MockFunction {
                             .lock()
                             .unwrap_or_else(::std::sync::PoisonError::into_inner);
                         __mockall_guard.#call #tbf(#(#call_exprs,)*)
-                    }.expect(&no_match_msg)
+                    }.expect(&__mockall_no_match_msg)
                 }
             )
         } else {
@@ -569,9 +569,9 @@ impl MockFunction {
                 #no_mangle
                 #vis #sig {
                     use ::mockall::{ViaDebug, ViaNothing};
-                    let no_match_msg = #no_match_msg;
+                    let __mockall_no_match_msg = #no_match_msg;
                     #deref self.#substruct_obj #name.#call #tbf(#(#call_exprs,)*)
-                    .expect(&no_match_msg)
+                    .expect(&__mockall_no_match_msg)
                 }
 
             )
@@ -2115,11 +2115,11 @@ impl ToTokens for RefMutExpectation<'_> {
                     use ::mockall::{ViaDebug, ViaNothing};
                     assert!(__mockall_in_order,
                             "{}: Method sequence violation", &#desc);
-                    let desc = std::format!(
+                    let __mockall_desc = std::format!(
                         "{}", self.common.matcher.lock()
                                     .unwrap_or_else(::std::sync::PoisonError::into_inner));
                     self.rfunc.call_mut(#(#argnames, )*).unwrap_or_else(|m| {
-                            panic!("{}: Expectation({}) {}", #funcname, desc,
+                            panic!("{}: Expectation({}) {}", #funcname, __mockall_desc,
                                    m);
                     })
                 }
-- 
2.43.0


From 7e0d61b4984e39a3968b53cc39a7e951c2f0de62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:46 +0000
Subject: [PATCH 12/22] fix: allow mocking a trait that has a method named
 `default`

The generated constructor's `Self::default()` was ambiguous, or resolved to
the mocked method.
---
 mockall_derive/src/mock_item_struct.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mockall_derive/src/mock_item_struct.rs b/mockall_derive/src/mock_item_struct.rs
index b0bf615..4db1427 100644
--- a/mockall_derive/src/mock_item_struct.rs
+++ b/mockall_derive/src/mock_item_struct.rs
@@ -177,7 +177,7 @@ impl MockItemStruct {
                 /// method.  The trait's `new` method can still be called
                 /// like `<MockX as TraitY>::new`
                 pub fn new() -> Self {
-                    Self::default()
+                    <Self as ::std::default::Default>::default()
                 }
             )
         }
-- 
2.43.0


From 6cf5640ce299e1f6e884f3333acd37c611b85686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:46 +0000
Subject: [PATCH 13/22] fix: don't shadow the user's types with private imports

The private module of each mocked method imported Mutex, MutexGuard, Range,
DerefMut and mem, which hid other types or modules of the same names (for
example another crate's Mutex) from the signatures of the user's methods.
---
 mockall_derive/src/mock_function.rs | 38 ++++++++++++-----------------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index 65d7476..573b0a4 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -849,11 +849,6 @@ impl MockFunction {
             Box::new(ConcreteExpectationGuard{f: self})
         };
         let matcher = &Matcher{f: self};
-        let std_mutexguard = if self.is_static {
-            quote!(use ::std::sync::MutexGuard;)
-        } else {
-            quote!()
-        };
         let inner_mod_ident = self.inner_mod_ident();
         let rfunc: Box<dyn ToTokens> = if self.return_ref {
             Box::new(RefRfunc{f: self})
@@ -868,13 +863,12 @@ impl MockFunction {
             #[allow(clippy::too_many_arguments, clippy::indexing_slicing)]
             pub mod #inner_mod_ident {
                 use super::*;
-                use ::mockall::CaseTreeExt;
-                #std_mutexguard
+                // Don't import anything that could shadow the names that the
+                // user's signatures get from the parent module.
+                use ::mockall::CaseTreeExt as _;
                 use ::std::{
                     boxed::Box,
-                    mem,
-                    ops::{DerefMut, Range},
-                    sync::Mutex,
+                    ops::DerefMut as _,
                     vec::Vec,
                 };
                 #rfunc
@@ -937,7 +931,7 @@ impl ToTokens for Common<'_> {
         quote!(
             /// Holds the stuff that is independent of the output type
             struct Common #ig #wc {
-                matcher: Mutex<Matcher #tg>,
+                matcher: ::std::sync::Mutex<Matcher #tg>,
                 seq_handle: Option<::mockall::SeqHandle>,
                 times: ::mockall::Times
             }
@@ -946,7 +940,7 @@ impl ToTokens for Common<'_> {
             {
                 fn default() -> Self {
                     Common {
-                        matcher: Mutex::new(Matcher::default()),
+                        matcher: ::std::sync::Mutex::new(Matcher::default()),
                         seq_handle: None,
                         times: ::mockall::Times::default()
                     }
@@ -1459,7 +1453,7 @@ impl ToTokens for ConcreteExpectationGuard<'_> {
             // ExpectationGuard is only defined for expectations that return
             // 'static return types.
             #v struct ExpectationGuard #e_ig #e_wc {
-                guard: MutexGuard<'__mockall_lt, Expectations #tg>,
+                guard: ::std::sync::MutexGuard<'__mockall_lt, Expectations #tg>,
                 i: usize
             }
 
@@ -1469,7 +1463,7 @@ impl ToTokens for ConcreteExpectationGuard<'_> {
                 // Should only be called from the mockall_derive generated
                 // code
                 #[doc(hidden)]
-                #v fn new(mut __mockall_guard: MutexGuard<'__mockall_lt, Expectations #tg>)
+                #v fn new(mut __mockall_guard: ::std::sync::MutexGuard<'__mockall_lt, Expectations #tg>)
                     -> Self
                 {
                     __mockall_guard.expect(); // Drop the &Expectation
@@ -1519,7 +1513,7 @@ impl ToTokens for GenericExpectationGuard<'_> {
             /// protected by a Mutex guard.  Useful for mocking static
             /// methods.  Forwards accesses to an `Expectation` object.
             #v struct ExpectationGuard #e_ig #e_wc{
-                guard: MutexGuard<'__mockall_lt, GenericExpectations>,
+                guard: ::std::sync::MutexGuard<'__mockall_lt, GenericExpectations>,
                 i: usize,
                 _phantom: ::std::marker::PhantomData<(#(#fn_params,)*)>,
             }
@@ -1530,7 +1524,7 @@ impl ToTokens for GenericExpectationGuard<'_> {
                 // Should only be called from the mockall_derive generated
                 // code
                 #[doc(hidden)]
-                #v fn new(mut __mockall_guard: MutexGuard<'__mockall_lt, GenericExpectations>)
+                #v fn new(mut __mockall_guard: ::std::sync::MutexGuard<'__mockall_lt, GenericExpectations>)
                     -> Self
                 {
                     let __mockall_ee: &mut Expectations #tg =
@@ -1793,7 +1787,7 @@ impl ToTokens for RefRfunc<'_> {
                 // Prevent "unused type parameter" errors Surprisingly,
                 // PhantomData<Fn(generics)> is Send even if generics are not,
                 // unlike PhantomData<generics>
-                _Phantom(Mutex<Box<dyn Fn(#(#fn_params,)*) + Send>>)
+                _Phantom(::std::sync::Mutex<Box<dyn Fn(#(#fn_params,)*) + Send>>)
             }
 
             impl #ig  Rfunc #tg #wc {
@@ -1864,7 +1858,7 @@ impl ToTokens for RefMutRfunc<'_> {
                 // Prevent "unused type parameter" errors Surprisingly,
                 // PhantomData<Fn(generics)> is Send even if generics are not,
                 // unlike PhantomData<generics>
-                _Phantom(Mutex<Box<dyn Fn(#(#fn_params,)*) + Send>>)
+                _Phantom(::std::sync::Mutex<Box<dyn Fn(#(#fn_params,)*) + Send>>)
             }
 
             impl #ig  Rfunc #tg #wc {
@@ -1976,7 +1970,7 @@ impl ToTokens for StaticRfunc<'_> {
                         },
                         Rfunc::Once(_) => {
                             if let Rfunc::Once(mut __mockall_f) =
-                                mem::replace(self, Rfunc::Expired) {
+                                ::std::mem::replace(self, Rfunc::Expired) {
                                 ::std::result::Result::Ok(__mockall_f( #(#argnames, )* ))
                             } else {
                                 unreachable!()
@@ -1988,7 +1982,7 @@ impl ToTokens for StaticRfunc<'_> {
                             // panic, too.
                             let _ = __mockall_f.get();
                             if let Rfunc::OnceSt(mut __mockall_f) =
-                                mem::replace(self, Rfunc::Expired) {
+                                ::std::mem::replace(self, Rfunc::Expired) {
                                 ::std::result::Result::Ok((__mockall_f.into_inner())(#(#argnames,)*))
                             } else {
                                 unreachable!()
@@ -2195,7 +2189,7 @@ impl ToTokens for StaticExpectation<'_> {
             /// This is the type returned by the `expect_*` methods.
             #v struct Expectation #ig #wc {
                 common: Common #common_tg,
-                rfunc: Mutex<Rfunc #tg>,
+                rfunc: ::std::sync::Mutex<Rfunc #tg>,
             }
 
             #[allow(clippy::unused_unit)]
@@ -2343,7 +2337,7 @@ impl ToTokens for StaticExpectation<'_> {
                 fn default() -> Self {
                     Expectation {
                         common: Common::default(),
-                        rfunc: Mutex::new(Rfunc::default())
+                        rfunc: ::std::sync::Mutex::new(Rfunc::default())
                     }
                 }
             }
-- 
2.43.0


From 789a562632344223544c42068fc4d9a74e19232b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:12 +0000
Subject: [PATCH 14/22] fix: import helper traits anonymously

So that they don't hide type parameters of the same names.
---
 mockall_derive/src/mock_function.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index 573b0a4..e44e7b3 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -549,7 +549,7 @@ impl MockFunction {
                 #dead_code
                 #no_mangle
                 #vis #sig {
-                    use ::mockall::{ViaDebug, ViaNothing};
+                    use ::mockall::{ViaDebug as _, ViaNothing as _};
                     let __mockall_no_match_msg = #no_match_msg;
                     #deref {
                         // A panic during a previous call may have poisoned
@@ -568,7 +568,7 @@ impl MockFunction {
                 #dead_code
                 #no_mangle
                 #vis #sig {
-                    use ::mockall::{ViaDebug, ViaNothing};
+                    use ::mockall::{ViaDebug as _, ViaNothing as _};
                     let __mockall_no_match_msg = #no_match_msg;
                     #deref self.#substruct_obj #name.#call #tbf(#(#call_exprs,)*)
                     .expect(&__mockall_no_match_msg)
@@ -1813,7 +1813,7 @@ impl ToTokens for RefRfunc<'_> {
             impl #ig std::default::Default for Rfunc #tg #wc
             {
                 fn default() -> Self {
-                    use ::mockall::ReturnDefault;
+                    use ::mockall::ReturnDefault as _;
                     Rfunc::Default(::mockall::DefaultReturner::<#owned_output>
                                 ::maybe_return_default())
                 }
@@ -1904,7 +1904,7 @@ impl ToTokens for RefMutRfunc<'_> {
             impl #ig std::default::Default for Rfunc #tg #wc
             {
                 fn default() -> Self {
-                    use ::mockall::ReturnDefault;
+                    use ::mockall::ReturnDefault as _;
                     Rfunc::Default(::mockall::DefaultReturner::<#owned_output>
                                 ::maybe_return_default())
                 }
@@ -1955,7 +1955,7 @@ impl ToTokens for StaticRfunc<'_> {
                 {
                     match self {
                         Rfunc::Default => {
-                            use ::mockall::ReturnDefault;
+                            use ::mockall::ReturnDefault as _;
                             ::mockall::DefaultReturner::<#output>
                                 ::return_default()
                         },
@@ -2038,7 +2038,7 @@ impl ToTokens for RefExpectation<'_> {
                 #v fn call #lg (&self, __mockall_in_order: bool,
                     #(#argnames: #argty, )*) -> #output
                 {
-                    use ::mockall::{ViaDebug, ViaNothing};
+                    use ::mockall::{ViaDebug as _, ViaNothing as _};
                     assert!(__mockall_in_order,
                             "{}: Method sequence violation", &#desc);
                     self.rfunc.call().unwrap_or_else(|m| {
@@ -2106,7 +2106,7 @@ impl ToTokens for RefMutExpectation<'_> {
                 #v fn call_mut #lg (&mut self, __mockall_in_order: bool,
                     #(#argnames: #argty, )*) -> &mut #owned_output
                 {
-                    use ::mockall::{ViaDebug, ViaNothing};
+                    use ::mockall::{ViaDebug as _, ViaNothing as _};
                     assert!(__mockall_in_order,
                             "{}: Method sequence violation", &#desc);
                     let __mockall_desc = std::format!(
@@ -2199,7 +2199,7 @@ impl ToTokens for StaticExpectation<'_> {
                 #v fn call #lg (&self, __mockall_in_order: bool,
                     #(#argnames: #argty, )* ) -> #output
                 {
-                    use ::mockall::{ViaDebug, ViaNothing};
+                    use ::mockall::{ViaDebug as _, ViaNothing as _};
                     assert!(__mockall_in_order,
                             "{}: Method sequence violation", &#desc);
                     self.rfunc.lock()
-- 
2.43.0


From 365b1a44a0ff55ea20603a35b7dd84a6efe427d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:01 +0000
Subject: [PATCH 15/22] fix: find lifetimes in the arguments of Fn traits and
 function pointers

---
 mockall_derive/src/lib.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/mockall_derive/src/lib.rs b/mockall_derive/src/lib.rs
index dd99b34..2fd9378 100644
--- a/mockall_derive/src/lib.rs
+++ b/mockall_derive/src/lib.rs
@@ -715,6 +715,13 @@ fn find_lifetimes_in_path(path: &Path) -> HashSet<Lifetime> {
                     _ => ()
                 }
             }
+        } else if let PathArguments::Parenthesized(pga) = &seg.arguments {
+            for ty in pga.inputs.iter() {
+                ret.extend(find_lifetimes(ty));
+            }
+            if let ReturnType::Type(_, ty) = &pga.output {
+                ret.extend(find_lifetimes(ty));
+            }
         }
     }
     ret
@@ -723,6 +730,16 @@ fn find_lifetimes_in_path(path: &Path) -> HashSet<Lifetime> {
 fn find_lifetimes(ty: &Type) -> HashSet<Lifetime> {
     match ty {
         Type::Array(ta) => find_lifetimes(ta.elem.as_ref()),
+        Type::BareFn(tbf) => {
+            let mut ret = HashSet::default();
+            for arg in tbf.inputs.iter() {
+                ret.extend(find_lifetimes(&arg.ty));
+            }
+            if let ReturnType::Type(_, ty) = &tbf.output {
+                ret.extend(find_lifetimes(ty));
+            }
+            ret
+        },
         Type::Group(tg) => find_lifetimes(tg.elem.as_ref()),
         Type::Infer(_ti) => HashSet::default(),
         Type::Never(_tn) => HashSet::default(),
-- 
2.43.0


From e1a16752dd10b0b6e8318f40bb2573bb3ec71772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:15 +0000
Subject: [PATCH 16/22] fix: replace Self in the arguments of Fn traits and
 function pointers

---
 mockall_derive/src/lib.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/mockall_derive/src/lib.rs b/mockall_derive/src/lib.rs
index 2fd9378..08b9b09 100644
--- a/mockall_derive/src/lib.rs
+++ b/mockall_derive/src/lib.rs
@@ -584,6 +584,14 @@ fn deselfify_path(path: &mut Path, actual: &Ident, generics: &Generics) {
                     _ => /* Nothing to do */(),
                 }
             }
+        } else if let PathArguments::Parenthesized(pga) = &mut seg.arguments
+        {
+            for ty in pga.inputs.iter_mut() {
+                deselfify(ty, actual, generics);
+            }
+            if let ReturnType::Type(_, ty) = &mut pga.output {
+                deselfify(ty.as_mut(), actual, generics);
+            }
         }
     }
 }
@@ -637,8 +645,13 @@ fn deselfify(literal_type: &mut Type, actual: &Ident, generics: &Generics) {
         Type::ImplTrait(_) => {
             /* Should've already been flagged as a compile_error */
         },
-        Type::BareFn(_) => {
-            /* Bare functions can't have Self arguments.  Nothing to do */
+        Type::BareFn(bfn) => {
+            for arg in bfn.inputs.iter_mut() {
+                deselfify(&mut arg.ty, actual, generics);
+            }
+            if let ReturnType::Type(_, ty) = &mut bfn.output {
+                deselfify(ty.as_mut(), actual, generics);
+            }
         },
         Type::Infer(_) | Type::Never(_) =>
         {
-- 
2.43.0


From ee8707fe07b699458f5a4dadbe4fb92d68ae0a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:08 +0000
Subject: [PATCH 17/22] fix: resolve super in the bounds of generic parameters

---
 mockall_derive/src/mock_function.rs | 32 ++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index e44e7b3..39a3a27 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -266,8 +266,20 @@ impl<'a> Builder<'a> {
                 (output_ty, boxed)
             }
         };
+        // The expect_* methods live beside the original item, unlike everything
+        // else that uses the method's generics
+        let expect_generics = declosured_generics.clone();
         supersuperfy_generics(&mut declosured_generics, self.levels);
         let owned_output = ownify(&output);
+        let expect_owned_output = match self.sig.output {
+            ReturnType::Default => owned_output.clone(),
+            ReturnType::Type(_, ref ty) => {
+                let mut output_ty = (**ty).clone();
+                destrify(&mut output_ty);
+                dedynify(&mut output_ty);
+                ownify(&output_ty)
+            }
+        };
         let mut return_ref = false;
         let mut return_refmut = false;
         if let Type::Reference(ref tr) = &output {
@@ -287,8 +299,10 @@ impl<'a> Builder<'a> {
         }
         let struct_generics = self.struct_generics.cloned()
             .unwrap_or_default();
+        let mut super_struct_generics = struct_generics.clone();
+        supersuperfy_generics(&mut super_struct_generics, self.levels);
         let (type_generics, salifetimes, srlifetimes) = split_lifetimes(
-            struct_generics.clone(),
+            super_struct_generics,
             &declosured_inputs,
             &ReturnType::Type(<Token![->]>::default(),
                               Box::new(owned_output.clone()))
@@ -300,6 +314,12 @@ impl<'a> Builder<'a> {
             &ReturnType::Type(<Token![->]>::default(),
                               Box::new(owned_output.clone()))
         );
+        let (expect_generics, _, _) = split_lifetimes(
+            expect_generics,
+            &declosured_inputs,
+            &ReturnType::Type(<Token![->]>::default(),
+                              Box::new(owned_output.clone()))
+        );
         let mrltg = lifetimes_to_generics(&mrlifetimes);
         let cgenerics = merge_generics(&type_generics, &call_generics);
         let egenerics = merge_generics(
@@ -326,6 +346,8 @@ impl<'a> Builder<'a> {
             call_vis: expectation_visibility(self.vis, call_levels),
             concretize: self.concretize,
             egenerics,
+            expect_generics,
+            expect_owned_output,
             cgenerics,
             fn_params,
             is_static,
@@ -426,6 +448,10 @@ pub(crate) struct MockFunction {
     concretize: bool,
     /// Generics of the Expectation object
     egenerics: Generics,
+    /// Generics of the expect_* method, not supersuperfied
+    expect_generics: Generics,
+    /// Like `owned_output`, but not supersuperfied.
+    expect_owned_output: Type,
     /// Generics of the Common object
     cgenerics: Generics,
     /// The mock function's generic types as a list of types
@@ -668,12 +694,12 @@ impl MockFunction {
         } else {
             &self.call_generics
         }.split_for_impl();
-        let (ig, _, wc) = self.call_generics.split_for_impl();
+        let (ig, _, wc) = self.expect_generics.split_for_impl();
         let mut wc = wc.cloned();
         if self.is_method_generic() && (self.return_ref || self.return_refmut) {
             // Add Senc + Sync, required for downcast, since Expectation
             // stores an Option<#owned_output>
-            send_syncify(&mut wc, self.owned_output.clone());
+            send_syncify(&mut wc, self.expect_owned_output.clone());
         }
         let tbf = tg.as_turbofish();
         let vis = &self.call_vis;
-- 
2.43.0


From cd4db188ea413fae7572d6257da9c5183083b3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:08 +0000
Subject: [PATCH 18/22] fix: resolve super in array lengths and constant
 arguments

---
 mockall_derive/src/lib.rs | 51 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 49 insertions(+), 2 deletions(-)

diff --git a/mockall_derive/src/lib.rs b/mockall_derive/src/lib.rs
index 08b9b09..a9375cf 100644
--- a/mockall_derive/src/lib.rs
+++ b/mockall_derive/src/lib.rs
@@ -12,8 +12,8 @@
 #![allow(clippy::doc_overindented_list_items)]
 
 use cfg_if::cfg_if;
-use proc_macro2::{Span, TokenStream};
-use quote::{ToTokens, format_ident, quote};
+use proc_macro2::{Span, TokenStream, TokenTree};
+use quote::{ToTokens, format_ident, quote, quote_spanned};
 use std::{
     env,
     hash::BuildHasherDefault
@@ -896,6 +896,49 @@ fn pat_is_self(pat: &Pat) -> bool {
     }
 }
 
+/// Replace any references to `super::X` within a constant expression with
+/// `super::super::X`.
+fn supersuperfy_tokens(tokens: TokenStream, levels: usize) -> TokenStream {
+    let mut output = TokenStream::new();
+    let mut in_path = false;
+    for tt in tokens {
+        match tt {
+            TokenTree::Group(g) => {
+                let mut g2 = proc_macro2::Group::new(g.delimiter(),
+                    supersuperfy_tokens(g.stream(), levels));
+                g2.set_span(g.span());
+                g2.to_tokens(&mut output);
+                in_path = false;
+            },
+            TokenTree::Ident(ref i) if i == "super" && !in_path => {
+                for _ in 0..levels {
+                    quote_spanned!(i.span()=> super::).to_tokens(&mut output);
+                }
+                tt.to_tokens(&mut output);
+                in_path = true;
+            },
+            TokenTree::Punct(ref p) => {
+                in_path = p.as_char() == ':';
+                tt.to_tokens(&mut output);
+            },
+            _ => {
+                tt.to_tokens(&mut output);
+                in_path = false;
+            }
+        }
+    }
+    output
+}
+
+/// Like [`supersuperfy_tokens`], but for an [`Expr`].
+fn supersuperfy_expr(expr: &mut Expr, levels: usize) {
+    let tokens = supersuperfy_tokens(expr.to_token_stream(), levels);
+    match parse2(tokens) {
+        Ok(new_expr) => *expr = new_expr,
+        Err(e) => compile_error(expr.span(), &e.to_string())
+    }
+}
+
 /// Add `levels` `super::` to the path.  Return the number of levels added.
 fn supersuperfy_path(path: &mut Path, levels: usize) -> usize {
     if let Some(t) = path.segments.last_mut() {
@@ -910,6 +953,9 @@ fn supersuperfy_path(path: &mut Path, levels: usize) -> usize {
                         GenericArgument::AssocType(ref mut at) => {
                             at.ty = supersuperfy(&at.ty, levels);
                         },
+                        GenericArgument::Const(ref mut expr) => {
+                            supersuperfy_expr(expr, levels);
+                        },
                         GenericArgument::Constraint(ref mut constraint) => {
                             supersuperfy_bounds(&mut constraint.bounds, levels);
                         },
@@ -957,6 +1003,7 @@ fn supersuperfy(original: &Type, levels: usize) -> Type {
             },
             Type::Array(a) => {
                 recurse(a.elem.as_mut(), levels);
+                supersuperfy_expr(&mut a.len, levels);
             },
             Type::Ptr(p) => {
                 recurse(p.elem.as_mut(), levels);
-- 
2.43.0


From ddc4c450b90767e083bc53ab4303c9a7f5e50b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:40 +0000
Subject: [PATCH 19/22] fix: allow several methods of the same name with a C
 ABI

---
 mockall_derive/src/mock_function.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index 39a3a27..ad12891 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -533,8 +533,11 @@ impl MockFunction {
             (&self.call_vis, dead_code)
         };
         // Add #[no_mangle] attribute to preserve the function name
-        // as-is, without mangling, for compatibility with C functions.
-        let no_mangle = if let Some(ref abi) = self.sig.abi {
+        // as-is, without mangling, for compatibility with C functions.  But
+        // methods can't be linked by name.
+        let no_mangle = if self.struct_.is_some() {
+            quote!()
+        } else if let Some(ref abi) = self.sig.abi {
             if let Some(ref name) = abi.name {
                 if name.value().ne("Rust") {
                     quote!(#[no_mangle])
-- 
2.43.0


From e1692a014e753f85ebcc36d1fbd8a432a3363ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:40 +0000
Subject: [PATCH 20/22] fix: allow mocking methods with the track_caller
 attribute

---
 mockall_derive/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mockall_derive/src/lib.rs b/mockall_derive/src/lib.rs
index a9375cf..a8e941b 100644
--- a/mockall_derive/src/lib.rs
+++ b/mockall_derive/src/lib.rs
@@ -864,6 +864,10 @@ impl<'a> AttrFormatter<'a> {
                 } else if *i.as_ref().unwrap() == "cold" {
                     // No need for such hints on mock functions.
                     false
+                } else if *i.as_ref().unwrap() == "track_caller" {
+                    // This may only be applied to functions, but we generate
+                    // other items, too.  And mock functions don't use it.
+                    false
                 } else if *i.as_ref().unwrap() == "instrument" {
                     // We can't usefully instrument the mock method, so just
                     // ignore this attribute.
-- 
2.43.0


From 3e3a5b445730f9849fceed6f7612c87eef0297d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:41 +0000
Subject: [PATCH 21/22] fix: allow mocking deprecated traits and trait methods

---
 mockall_derive/src/mock_trait.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mockall_derive/src/mock_trait.rs b/mockall_derive/src/mock_trait.rs
index fc3253c..b7f9483 100644
--- a/mockall_derive/src/mock_trait.rs
+++ b/mockall_derive/src/mock_trait.rs
@@ -59,9 +59,13 @@ impl MockTrait {
     /// * `vis`     -   Visibility of the struct
     pub fn new(structname: &Ident,
                struct_generics: &Generics,
-               impl_: ItemImpl,
+               mut impl_: ItemImpl,
                vis: &Visibility) -> Self
     {
+        // Rust doesn't accept this attribute on trait implementations nor their
+        // items
+        let supported = |attr: &Attribute| !attr.path().is_ident("deprecated");
+        impl_.attrs.retain(supported);
         let mut consts = Vec::new();
         let mut methods = Vec::new();
         let mut types = Vec::new();
@@ -87,7 +91,8 @@ impl MockTrait {
                 ImplItem::Const(iic) => {
                     consts.push(iic);
                 },
-                ImplItem::Fn(iif) => {
+                ImplItem::Fn(mut iif) => {
+                    iif.attrs.retain(supported);
                     let mf = mock_function::Builder::new(&iif.sig, vis)
                         .attrs(&iif.attrs)
                         .levels(2)
-- 
2.43.0


From 38682e32b908a2b330e36aeeab27a54ff42ccad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:14 +0000
Subject: [PATCH 22/22] fix: don't export mocked module functions with a C ABI

---
 mockall_derive/src/mock_function.rs | 15 +++++++++++++--
 mockall_derive/src/mock_item.rs     |  1 +
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index ad12891..3573d05 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -180,6 +180,7 @@ fn send_syncify(wc: &mut Option<WhereClause>, bounded_ty: Type) {
 pub(crate) struct Builder<'a> {
     attrs: &'a [Attribute],
     call_levels: Option<usize>,
+    foreign: bool,
     concretize: bool,
     levels: usize,
     parent: Option<&'a Ident>,
@@ -350,6 +351,7 @@ impl<'a> Builder<'a> {
             expect_owned_output,
             cgenerics,
             fn_params,
+            foreign: self.foreign,
             is_static,
             mod_ident: self.parent.unwrap_or(&Ident::new("FIXME", Span::call_site())).clone(),
             output,
@@ -376,6 +378,12 @@ impl<'a> Builder<'a> {
         self
     }
 
+    /// Is this function declared in a foreign module?
+    pub fn foreign(&mut self, foreign: bool) -> &mut Self {
+        self.foreign = foreign;
+        self
+    }
+
     /// How many levels of modules beneath the original function this one's
     /// private module is nested.
     pub fn levels(&mut self, levels: usize) -> &mut Self {
@@ -393,6 +401,7 @@ impl<'a> Builder<'a> {
             concretize: false,
             levels: 0,
             call_levels: None,
+            foreign: false,
             parent: None,
             sig,
             struct_: None,
@@ -456,6 +465,8 @@ pub(crate) struct MockFunction {
     cgenerics: Generics,
     /// The mock function's generic types as a list of types
     fn_params: Vec<Ident>,
+    /// Was this function declared in a foreign module?
+    foreign: bool,
     /// Is this for a static method or free function?
     is_static: bool,
     /// name of the function's parent module
@@ -534,8 +545,8 @@ impl MockFunction {
         };
         // Add #[no_mangle] attribute to preserve the function name
         // as-is, without mangling, for compatibility with C functions.  But
-        // methods can't be linked by name.
-        let no_mangle = if self.struct_.is_some() {
+        // don't export functions that weren't foreign to begin with.
+        let no_mangle = if !self.foreign {
             quote!()
         } else if let Some(ref abi) = self.sig.abi {
             if let Some(ref name) = abi.name {
diff --git a/mockall_derive/src/mock_item.rs b/mockall_derive/src/mock_item.rs
index f31f7a5..83a57d0 100644
--- a/mockall_derive/src/mock_item.rs
+++ b/mockall_derive/src/mock_item.rs
@@ -116,6 +116,7 @@ impl From<MockableModule> for MockItemModule {
 
                             let mf = mock_function::Builder::new(&f.sig, &f.vis)
                                 .attrs(&f.attrs)
+                                .foreign(true)
                                 .parent(&mock_ident)
                                 .levels(1)
                                 .call_levels(0)
-- 
2.43.0

