From a3bd5322b6b7d304a1a06a6cc486708cb634319b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:03 +0000
Subject: [PATCH 01/45] fix: refuse a delta list to a peer concurrent with
 evicted history

A peer whose version is concurrent with the last evicted delta was given
the remaining deltas only and silently missed the evicted one.
---
 crates/logicaffeine_data/src/crdt/delta_buffer.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/logicaffeine_data/src/crdt/delta_buffer.rs b/crates/logicaffeine_data/src/crdt/delta_buffer.rs
index b65def6..5329059 100644
--- a/crates/logicaffeine_data/src/crdt/delta_buffer.rs
+++ b/crates/logicaffeine_data/src/crdt/delta_buffer.rs
@@ -43,12 +43,15 @@ impl<D: Clone> DeltaBuffer<D> {
 
     /// Get all deltas since the given version.
     ///
-    /// Returns `None` if the version is older than or equal to our oldest evicted delta.
+    /// Returns `None` if the version is older than, equal to or concurrent with our oldest
+    /// evicted delta.
     /// Returns `Some(vec![])` if the peer is up-to-date.
     pub fn deltas_since(&self, version: &VClock) -> Option<Vec<D>> {
-        // If we've evicted deltas and the peer is at or behind what we evicted,
-        // we can't help them catch up (they need the evicted delta).
-        if self.oldest_version != VClock::new() && self.oldest_version.dominates(version) {
+        // If we've evicted deltas and the peer is at, behind or concurrent with what we
+        // evicted, we can't help them catch up (they need the evicted delta).
+        if self.oldest_version != VClock::new()
+            && (self.oldest_version.dominates(version) || !version.dominates(&self.oldest_version))
+        {
             return None;
         }
 
-- 
2.43.0


From ac61a0999f20bb855e51a1eb69eedc78af3e1f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:27:03 +0000
Subject: [PATCH 02/45] fix: complex power with the most negative exponent no
 longer overflows

---
 crates/logicaffeine_base/src/numeric.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/crates/logicaffeine_base/src/numeric.rs b/crates/logicaffeine_base/src/numeric.rs
index d184d12..bac3c43 100644
--- a/crates/logicaffeine_base/src/numeric.rs
+++ b/crates/logicaffeine_base/src/numeric.rs
@@ -1200,12 +1200,9 @@ impl Complex {
     /// `self` raised to an integer power. Negative exponents take the reciprocal
     /// first; `None` only for zero raised to a negative power. `0^0 == 1`.
     pub fn pow(&self, exp: i32) -> Option<Complex> {
-        if exp < 0 {
-            return self.recip()?.pow(-exp);
-        }
         let mut result = Complex::one();
-        let mut base = self.clone();
-        let mut e = exp as u32;
+        let mut base = if exp < 0 { self.recip()? } else { self.clone() };
+        let mut e = exp.unsigned_abs();
         while e > 0 {
             if e & 1 == 1 {
                 result = result.mul(&base);
-- 
2.43.0


From f60ae251baf2d51a50d831dd33d04446e225202e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:27:03 +0000
Subject: [PATCH 03/45] fix: timestamps outside the representable range are
 refused, not overflowed

---
 crates/logicaffeine_base/src/temporal.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/logicaffeine_base/src/temporal.rs b/crates/logicaffeine_base/src/temporal.rs
index 1d379b4..d9699ad 100644
--- a/crates/logicaffeine_base/src/temporal.rs
+++ b/crates/logicaffeine_base/src/temporal.rs
@@ -850,8 +850,13 @@ pub fn parse_rfc3339(s: &str) -> Option<i64> {
     if pos != b.len() {
         return None; // trailing garbage
     }
-    let civil = CivilDateTime { year, month, day, hour, minute, second, nanosecond };
-    Some(unix_nanos_from_civil(civil) - offset_seconds * NANOS_PER_SECOND)
+    // A year outside the 64-bit nanosecond range has no instant.
+    let seconds = days_from_civil(year, month, day) * SECONDS_PER_DAY
+        + hour as i64 * 3600
+        + minute as i64 * 60
+        + second as i64
+        - offset_seconds;
+    i64::try_from(seconds as i128 * NANOS_PER_SECOND as i128 + nanosecond as i128).ok()
 }
 
 /// True if `year` is a leap year in the proleptic **Gregorian** calendar (every 4th year, except
-- 
2.43.0


From 5080054caae1758ac0137910aad690095788f9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:27:03 +0000
Subject: [PATCH 04/45] fix: a duration with a very long fraction is refused,
 not overflowed

---
 crates/logicaffeine_base/src/temporal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/logicaffeine_base/src/temporal.rs b/crates/logicaffeine_base/src/temporal.rs
index d9699ad..8275e9f 100644
--- a/crates/logicaffeine_base/src/temporal.rs
+++ b/crates/logicaffeine_base/src/temporal.rs
@@ -715,9 +715,9 @@ pub fn parse_duration(s: &str) -> Option<i64> {
             let frac_val: i128 = frac_str.parse().ok()?;
             let mut denom: i128 = 1;
             for _ in 0..frac_str.len() {
-                denom *= 10;
+                denom = denom.checked_mul(10)?;
             }
-            total = total.checked_add(frac_val * unit_nanos / denom)?;
+            total = total.checked_add(frac_val.checked_mul(unit_nanos)? / denom)?;
         }
         saw_any = true;
     }
-- 
2.43.0


From 362fe58004eb42191f765d9228024369f0cba0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:35:11 +0000
Subject: [PATCH 05/45] fix: identifier parsing no longer accepts control
 characters as digits

---
 crates/logicaffeine_base/src/uuid.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/logicaffeine_base/src/uuid.rs b/crates/logicaffeine_base/src/uuid.rs
index 12383f8..1b43691 100644
--- a/crates/logicaffeine_base/src/uuid.rs
+++ b/crates/logicaffeine_base/src/uuid.rs
@@ -491,10 +491,11 @@ mod x86_hex {
     unsafe fn hex_ok(chars: core::arch::x86_64::__m128i) -> core::arch::x86_64::__m128i {
         use core::arch::x86_64::*;
         let cf = _mm_or_si128(chars, _mm_set1_epi8(0x20)); // fold 'A'-'F' → 'a'-'f'
-        let clamp = |lo: i8, hi: i8| {
-            _mm_cmpeq_epi8(_mm_min_epu8(_mm_max_epu8(cf, _mm_set1_epi8(lo)), _mm_set1_epi8(hi)), cf)
+        let clamp = |v: __m128i, lo: i8, hi: i8| {
+            _mm_cmpeq_epi8(_mm_min_epu8(_mm_max_epu8(v, _mm_set1_epi8(lo)), _mm_set1_epi8(hi)), v)
         };
-        _mm_or_si128(clamp(0x30, 0x39), clamp(0x61, 0x66))
+        // Digits are matched unfolded: folding would also lift 0x10..=0x19 onto '0'..='9'.
+        _mm_or_si128(clamp(chars, 0x30, 0x39), clamp(cf, 0x61, 0x66))
     }
 
     /// The branch-free decode core shared by the single and bulk parsers. Two `pshufb` gathers strip the
-- 
2.43.0


From ba708180b9d2c0b9792ff11532cb3a2a46d74960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:19 +0000
Subject: [PATCH 06/45] fix: integer column decoding honours the element limit
 for constant and run-length columns

A frame-of-reference or dictionary column of zero bit width, and a run-length
column, took their element count straight from the message. A few bytes could
ask for an allocation of any size, whatever limit the receiver had set.
---
 crates/logicaffeine_base/src/describe.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/logicaffeine_base/src/describe.rs b/crates/logicaffeine_base/src/describe.rs
index d8924b8..08208b0 100644
--- a/crates/logicaffeine_base/src/describe.rs
+++ b/crates/logicaffeine_base/src/describe.rs
@@ -2349,7 +2349,7 @@ pub fn decode_int_column_body(
         }
         // Frame-of-reference column: unpack the bit-packed residuals, add the minimum.
         T_INTS_FOR => {
-            let n = read_uvarint(buf, pos)? as usize;
+            let n = bounded(read_uvarint(buf, pos)?, max_elements)?;
             let min = unzigzag(read_uvarint(buf, pos)?);
             let width = *buf.get(*pos)?;
             *pos += 1;
@@ -2378,7 +2378,7 @@ pub fn decode_int_column_body(
             for _ in 0..runs {
                 let val = unzigzag(read_uvarint(buf, pos)?);
                 let len = read_uvarint(buf, pos)? as usize;
-                if v.len().checked_add(len)? > RLE_MAX_TOTAL {
+                if v.len().checked_add(len)? > RLE_MAX_TOTAL.min(max_elements) {
                     return None;
                 }
                 v.resize(v.len() + len, val);
@@ -2392,7 +2392,7 @@ pub fn decode_int_column_body(
             for _ in 0..d {
                 dict.push(unzigzag(read_uvarint(buf, pos)?));
             }
-            let n = read_uvarint(buf, pos)? as usize;
+            let n = bounded(read_uvarint(buf, pos)?, max_elements)?;
             let iw = *buf.get(*pos)?;
             *pos += 1;
             if iw > 64 {
-- 
2.43.0


From 59f2673edb06ffbab1baf76fe47d7a83c86859ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:19 +0000
Subject: [PATCH 07/45] fix: text indexing after a non-ASCII character returns
 the right character

The fast path used the character position as a byte offset whenever the byte
found there was ASCII, even when earlier characters took several bytes.
---
 crates/logicaffeine_data/src/indexing.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/logicaffeine_data/src/indexing.rs b/crates/logicaffeine_data/src/indexing.rs
index 04a72a2..0f056d0 100644
--- a/crates/logicaffeine_data/src/indexing.rs
+++ b/crates/logicaffeine_data/src/indexing.rs
@@ -164,10 +164,10 @@ impl LogosIndex<i64> for String {
         } else {
             resolve_logos_index(index, self.chars().count())
         };
-        match self.as_bytes().get(idx) {
-            Some(&b) if b.is_ascii() => {
-                // Fast path: ASCII byte
-                String::from(b as char)
+        match self.as_bytes().get(..idx.saturating_add(1)) {
+            Some(head) if head.is_ascii() => {
+                // Fast path: an all-ASCII prefix, where byte and character offsets agree
+                String::from(head[idx] as char)
             }
             _ => {
                 // Slow path: Unicode or out of bounds
@@ -198,8 +198,8 @@ impl LogosGetChar for String {
         } else {
             resolve_logos_index(index, self.chars().count())
         };
-        match self.as_bytes().get(idx) {
-            Some(&b) if b.is_ascii() => b as char,
+        match self.as_bytes().get(..idx.saturating_add(1)) {
+            Some(head) if head.is_ascii() => head[idx] as char,
             _ => {
                 self.chars().nth(idx)
                     .unwrap_or_else(|| panic!(
-- 
2.43.0


From 69b224e1846c47ad6aa0113ca474726e16789c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:19 +0000
Subject: [PATCH 08/45] fix: a float key of 2^63 no longer matches the largest
 integer key

The upper bound rounds to 2^63 as a float, which no 64-bit integer equals.
---
 crates/logicaffeine_data/src/ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/logicaffeine_data/src/ops.rs b/crates/logicaffeine_data/src/ops.rs
index c418495..541ca1e 100644
--- a/crates/logicaffeine_data/src/ops.rs
+++ b/crates/logicaffeine_data/src/ops.rs
@@ -306,7 +306,7 @@ pub fn logos_pow_exact(a: impl Into<crate::types::LogosInt>, b: impl Into<crate:
 /// non-integral float (`1.5`) matches no Int key.
 #[inline(always)]
 pub fn logos_i64_key_of_f64(f: f64) -> Option<i64> {
-    if f.fract() == 0.0 && f >= i64::MIN as f64 && f <= i64::MAX as f64 {
+    if f.fract() == 0.0 && f >= i64::MIN as f64 && f < i64::MAX as f64 {
         Some(f as i64)
     } else {
         None
-- 
2.43.0


From dd615daec9be87be60dae5f885f1b4266af170c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:43:27 +0000
Subject: [PATCH 09/45] fix: a bit sequence is no longer given a carry-register
 rational that does not generate it

Reducing the reconstructed fraction could remove a factor of two, after which
the fraction agreed with the sequence only up to its last few bits.
---
 crates/logicaffeine_base/src/describe.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/logicaffeine_base/src/describe.rs b/crates/logicaffeine_base/src/describe.rs
index 08208b0..a8958a4 100644
--- a/crates/logicaffeine_base/src/describe.rs
+++ b/crates/logicaffeine_base/src/describe.rs
@@ -819,6 +819,9 @@ pub fn two_adic_reconstruct(bits: &[bool]) -> Option<(crate::numeric::BigInt, cr
     if !q.is_odd() {
         return None; // no odd-denominator (FCSR) rational — treat as incompressible
     }
+    if fcsr_generate(&p, &q, n) != bits {
+        return None; // removing an even common factor lost the last bits — nothing this short fits
+    }
     Some((p, q))
 }
 
-- 
2.43.0


From e776e67182d3f2285bbfce81ca20c336376a7b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:57:57 +0000
Subject: [PATCH 10/45] fix: withdraw a resolved select from the channel that
 won it

A select naming one channel in two arms stayed queued on that channel after
it was resolved, so a later send or close woke the task a second time or
handed it a value it never asked for.
---
 crates/logicaffeine_runtime/src/scheduler.rs | 23 ++++++++------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/crates/logicaffeine_runtime/src/scheduler.rs b/crates/logicaffeine_runtime/src/scheduler.rs
index 817973e..e58161f 100644
--- a/crates/logicaffeine_runtime/src/scheduler.rs
+++ b/crates/logicaffeine_runtime/src/scheduler.rs
@@ -611,17 +611,16 @@ impl<'t> Scheduler<'t> {
                 slot.state = TaskState::Ready;
             }
             self.ready.push(rid);
-            self.cancel_select_registrations(rid, Some(ch));
+            self.cancel_select_registrations(rid);
         } else {
             self.mark_ready(rid, value);
         }
     }
 
-    fn cancel_select_registrations(&mut self, rid: TaskId, except: Option<ChanId>) {
-        for (cid, chan) in self.chans.iter_mut() {
-            if Some(*cid) == except {
-                continue;
-            }
+    /// Withdraw a resolved select from every channel it waits on — including the winning
+    /// one, where it is still queued when two arms name the same channel.
+    fn cancel_select_registrations(&mut self, rid: TaskId) {
+        for chan in self.chans.values_mut() {
             chan.blocked_receivers.retain(|t| *t != rid);
         }
         self.timers.retain(|t| t.tid != rid);
@@ -742,7 +741,7 @@ impl<'t> Scheduler<'t> {
                 }
                 self.ready.push(tid);
                 if had.is_some() {
-                    self.cancel_select_registrations(tid, None);
+                    self.cancel_select_registrations(tid);
                 }
             }
             None => self.mark_ready(tid, RtPayload::Nothing),
@@ -795,12 +794,8 @@ impl<'t> Scheduler<'t> {
     }
 
     fn do_close(&mut self, ch: ChanId) {
-        let waiters: Vec<TaskId> = {
-            let chan = self.chans.get_mut(&ch).unwrap();
-            chan.closed = true;
-            chan.blocked_receivers.drain(..).collect()
-        };
-        for rid in waiters {
+        self.chans.get_mut(&ch).unwrap().closed = true;
+        while let Some(rid) = self.chans.get_mut(&ch).unwrap().blocked_receivers.pop_front() {
             self.wake_closed_receiver(rid, ch);
         }
     }
@@ -819,7 +814,7 @@ impl<'t> Scheduler<'t> {
                 slot.state = TaskState::Ready;
             }
             self.ready.push(rid);
-            self.cancel_select_registrations(rid, Some(ch));
+            self.cancel_select_registrations(rid);
         } else {
             self.mark_ready(rid, RtPayload::Nothing);
         }
-- 
2.43.0


From 9a5a6a056f27f1e1d35b6da9241124bc15dd8241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:58:32 +0000
Subject: [PATCH 11/45] fix: keep a task aborted in the same batch from running
 on several workers

The multi-worker executor had already dispatched the task when an earlier
task in the batch aborted it, and applied its step anyway, which brought the
task back to life. One thread never runs such a task again.
---
 crates/logicaffeine_runtime/src/executor.rs  | 4 ++++
 crates/logicaffeine_runtime/src/scheduler.rs | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/crates/logicaffeine_runtime/src/executor.rs b/crates/logicaffeine_runtime/src/executor.rs
index 90a5453..34e27c9 100644
--- a/crates/logicaffeine_runtime/src/executor.rs
+++ b/crates/logicaffeine_runtime/src/executor.rs
@@ -248,6 +248,10 @@ where
             for tid in &order {
                 let WorkerReport { tid: rt, output: slice_out, step } =
                     reports.remove(tid).expect("report for dispatched task");
+                // Aborted by a task earlier in this batch: the slice never happened.
+                if sched.ws_is_done(rt) {
+                    continue;
+                }
                 output.extend(slice_out);
                 apply_step(&mut sched, &mut fresh, rt, step);
             }
diff --git a/crates/logicaffeine_runtime/src/scheduler.rs b/crates/logicaffeine_runtime/src/scheduler.rs
index e58161f..f314b20 100644
--- a/crates/logicaffeine_runtime/src/scheduler.rs
+++ b/crates/logicaffeine_runtime/src/scheduler.rs
@@ -404,6 +404,12 @@ impl<'t> Scheduler<'t> {
         })
     }
 
+    /// Has this task finished or been aborted?
+    #[cfg(not(target_arch = "wasm32"))]
+    pub(crate) fn ws_is_done(&self, tid: TaskId) -> bool {
+        matches!(self.tasks[&tid].state, TaskState::Done)
+    }
+
     /// Every task finished?
     #[cfg(not(target_arch = "wasm32"))]
     pub(crate) fn ws_all_done(&self) -> bool {
-- 
2.43.0


From f0d6aa2b2deef3840849b6b74dddf7b0b2c110fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:33:33 +0000
Subject: [PATCH 12/45] fix: range analysis forgets what loops, branches and
 shadowing may change

The dead-branch pass and the oracle kept ranges that only held at loop entry,
inside a broken-out-of loop, or for a shadowing inner variable, so live code
was removed and bounds checks were dropped. Interval division of the smallest
integer by -1 also panicked.
---
 .../src/optimize/abstract_interp.rs           | 231 +++++++++++++-----
 1 file changed, 164 insertions(+), 67 deletions(-)

diff --git a/crates/logicaffeine_compile/src/optimize/abstract_interp.rs b/crates/logicaffeine_compile/src/optimize/abstract_interp.rs
index f73d11a..ccbc13b 100644
--- a/crates/logicaffeine_compile/src/optimize/abstract_interp.rs
+++ b/crates/logicaffeine_compile/src/optimize/abstract_interp.rs
@@ -90,7 +90,8 @@ impl Bound {
     /// infinite, its sign flipping when `k < 0`.
     fn div_by(&self, k: i64) -> Bound {
         match self {
-            Bound::Finite(a) => Bound::Finite(a / k),
+            // The one quotient outside i64 (`MIN / -1`) lies above every finite bound.
+            Bound::Finite(a) => a.checked_div(k).map_or(Bound::PosInf, Bound::Finite),
             Bound::NegInf => {
                 if k > 0 {
                     Bound::NegInf
@@ -1097,6 +1098,15 @@ impl AbstractState {
         self.vars.insert(sym, range);
     }
 
+    /// Drop everything known about `syms` (written on some path).
+    fn forget(&mut self, syms: &[Symbol]) {
+        for s in syms {
+            self.vars.remove(s);
+            self.lengths.remove(s);
+            self.elem.remove(s);
+        }
+    }
+
     fn get_length(&self, sym: &Symbol) -> Interval {
         self.lengths.get(sym).cloned().unwrap_or(Interval::non_negative())
     }
@@ -1334,15 +1344,16 @@ fn interp_block<'a>(
             Stmt::Let { var, ty, value, mutable } => {
                 let range = eval_expr(value, state);
                 state.set_var(var, range);
-                if matches!(value, Expr::New { .. }) {
-                    state.set_length(var, Interval::exact(0));
-                }
+                let length = bound_length(value, state);
+                state.set_length(var, length);
                 result.push(Stmt::Let { var, ty, value, mutable });
             }
 
             Stmt::Set { target, value } => {
                 let range = eval_expr(value, state);
                 state.set_var(target, range);
+                let length = bound_length(value, state);
+                state.set_length(target, length);
                 result.push(Stmt::Set { target, value });
             }
 
@@ -1355,6 +1366,12 @@ fn interp_block<'a>(
             }
 
             Stmt::If { cond, then_block, else_block } => {
+                // A `Let` inside a branch binds a NEW variable; what it learned
+                // must not describe an outer variable of the same name.
+                let mut branch_lets = collect_lets(then_block);
+                if let Some(eb) = else_block {
+                    branch_lets.extend(collect_lets(eb));
+                }
                 if let Some(val) = eval_condition(cond, state) {
                     let new_cond = expr_arena.alloc(Expr::Literal(Literal::Boolean(val)));
                     if val {
@@ -1409,19 +1426,14 @@ fn interp_block<'a>(
 
                     result.push(Stmt::If { cond, then_block: new_then, else_block: new_else });
                 }
+                state.forget(&branch_lets);
             }
 
             Stmt::While { cond, body, decreasing } => {
-                let mut loop_state = state.clone();
-
-                let loop_writes = collect_writes(body);
-                let bounded_var = extract_bounded_var(cond);
-
                 // Widen all loop-written variables (including the counter)
                 // to their full possible range before analyzing the body.
-                for w in &loop_writes {
-                    loop_state.set_var(*w, Interval::top());
-                }
+                state.forget(&collect_mutations(body));
+                let mut loop_state = state.clone();
 
                 // Now narrow the loop state based on the condition.
                 // For the bounded variable (counter), this gives it the range
@@ -1431,36 +1443,21 @@ fn interp_block<'a>(
 
                 let new_body = interp_nested_block(body, &mut loop_state, expr_arena, stmt_arena);
 
-                // After loop: condition is false (loop exited)
-                narrow_state_negated(cond, state);
-                // Variables written in loop body get widened to top
-                for w in &loop_writes {
-                    if Some(*w) != bounded_var {
-                        state.set_var(*w, Interval::top());
-                    }
+                // After loop: condition is false, unless a `Break` left early
+                if !body_breaks(body) {
+                    narrow_state_negated(cond, state);
                 }
 
                 result.push(Stmt::While { cond, body: new_body, decreasing });
             }
 
             Stmt::Repeat { pattern, iterable, body } => {
+                state.forget(&collect_mutations(body));
                 let mut loop_state = state.clone();
-
-                if let Pattern::Identifier(var) = &pattern {
-                    loop_state.set_var(*var, Interval::top());
-                }
-
-                let loop_writes = collect_writes(body);
-                for w in &loop_writes {
-                    loop_state.set_var(*w, Interval::top());
-                }
+                loop_state.forget(&pattern_vars(&pattern));
 
                 let new_body = interp_nested_block(body, &mut loop_state, expr_arena, stmt_arena);
 
-                for w in &loop_writes {
-                    state.set_var(*w, Interval::top());
-                }
-
                 result.push(Stmt::Repeat { pattern, iterable, body: new_body });
             }
 
@@ -1485,28 +1482,35 @@ fn interp_block<'a>(
                         body: new_body,
                     }
                 }).collect();
+                for arm in &new_arms {
+                    state.forget(&collect_mutations(arm.body));
+                }
                 result.push(Stmt::Inspect { target, arms: new_arms, has_otherwise });
             }
 
-            Stmt::Zone { .. } => {
+            Stmt::Zone { body, .. } => {
                 // Don't analyze inside zones — zone-scoped bindings must be
                 // preserved for escape analysis (same as propagation pass).
+                state.forget(&collect_mutations(body));
                 result.push(stmt);
             }
 
             Stmt::Concurrent { tasks } => {
                 let mut sub_state = state.clone();
                 let new_tasks = interp_nested_block(tasks, &mut sub_state, expr_arena, stmt_arena);
+                state.forget(&collect_mutations(new_tasks));
                 result.push(Stmt::Concurrent { tasks: new_tasks });
             }
 
             Stmt::Parallel { tasks } => {
                 let mut sub_state = state.clone();
                 let new_tasks = interp_nested_block(tasks, &mut sub_state, expr_arena, stmt_arena);
+                state.forget(&collect_mutations(new_tasks));
                 result.push(Stmt::Parallel { tasks: new_tasks });
             }
 
             other => {
+                state.forget(&collect_mutations(std::slice::from_ref(&other)));
                 result.push(other);
             }
         }
@@ -1558,47 +1562,64 @@ fn join_states(out: &mut AbstractState, a: &AbstractState, b: &AbstractState) {
     }
 }
 
-fn collect_writes(block: &[Stmt]) -> Vec<Symbol> {
-    let mut writes = Vec::new();
-    for stmt in block {
-        collect_writes_stmt(stmt, &mut writes);
+/// The length a variable has right after being bound to `value`.
+fn bound_length(value: &Expr, state: &AbstractState) -> Interval {
+    match value {
+        Expr::New { .. } => Interval::exact(0),
+        Expr::Identifier(src) => state.get_length(src),
+        _ => Interval::non_negative(),
     }
-    writes
 }
 
-fn collect_writes_stmt(stmt: &Stmt, writes: &mut Vec<Symbol>) {
-    match stmt {
-        Stmt::Set { target, .. } => {
-            if !writes.contains(target) {
-                writes.push(*target);
-            }
-        }
-        Stmt::If { then_block, else_block, .. } => {
-            for s in *then_block { collect_writes_stmt(s, writes); }
-            if let Some(eb) = else_block {
-                for s in *eb { collect_writes_stmt(s, writes); }
+/// Every variable bound by a `Let` anywhere in the block.
+fn collect_lets(block: &[Stmt]) -> Vec<Symbol> {
+    fn walk(block: &[Stmt], out: &mut Vec<Symbol>) {
+        for stmt in block {
+            match stmt {
+                Stmt::Let { var, .. } => out.push(*var),
+                Stmt::If { then_block, else_block, .. } => {
+                    walk(then_block, out);
+                    if let Some(eb) = else_block {
+                        walk(eb, out);
+                    }
+                }
+                Stmt::While { body, .. } | Stmt::Repeat { body, .. } => walk(body, out),
+                Stmt::Inspect { arms, .. } => {
+                    for arm in arms {
+                        walk(arm.body, out);
+                    }
+                }
+                _ => {}
             }
         }
-        Stmt::While { body, .. } | Stmt::Repeat { body, .. } => {
-            for s in *body { collect_writes_stmt(s, writes); }
-        }
-        _ => {}
     }
+    let mut out = Vec::new();
+    walk(block, &mut out);
+    out
 }
 
-fn extract_bounded_var(cond: &Expr) -> Option<Symbol> {
-    match cond {
-        Expr::BinaryOp { op: BinaryOpKind::Lt | BinaryOpKind::LtEq | BinaryOpKind::Gt | BinaryOpKind::GtEq, left, .. } => {
-            if let Expr::Identifier(sym) = left {
-                Some(*sym)
-            } else {
-                None
-            }
-        }
-        _ => None,
+/// The variables a loop pattern binds.
+fn pattern_vars(pattern: &Pattern) -> Vec<Symbol> {
+    match pattern {
+        Pattern::Identifier(s) => vec![*s],
+        Pattern::Tuple(syms) => syms.to_vec(),
     }
 }
 
+/// Can a `Break` leave the loop this is the body of? A `Break` inside a nested
+/// loop leaves only that inner loop.
+fn body_breaks(body: &[Stmt]) -> bool {
+    body.iter().any(|s| match s {
+        Stmt::Break => true,
+        Stmt::If { then_block, else_block, .. } => {
+            body_breaks(then_block) || else_block.is_some_and(|eb| body_breaks(eb))
+        }
+        Stmt::Inspect { arms, .. } => arms.iter().any(|arm| body_breaks(arm.body)),
+        Stmt::Zone { body, .. } => body_breaks(body),
+        _ => false,
+    })
+}
+
 // ============================================================================
 // The Oracle: product lattice + rich, fact-returning analysis (EXODIA Phase 1).
 //
@@ -1798,6 +1819,37 @@ impl RichAbstractState {
         }
     }
 
+    /// Forget `sym`'s range, length and every relation naming it, keeping its
+    /// type and kind (a variable keeps those across reassignment).
+    fn forget_range(&mut self, sym: Symbol) {
+        self.intervals.forget(&[sym]);
+        self.shapes.insert(sym, CollectionShape::Top);
+        self.length_def.remove(&sym);
+        self.length_def.retain(|_, (n, _)| *n != sym);
+        let si = sym.index() as i64;
+        for m in [
+            &mut self.scalar_def,
+            &mut self.scalar_upper,
+            &mut self.scalar_lower,
+            &mut self.elem_upper,
+        ] {
+            m.remove(&sym);
+            m.retain(|_, e| !e.coefficients.contains_key(&si));
+        }
+    }
+
+    /// Leave the scope of `block`: a `Let` there that shadowed a variable of
+    /// `outer` described the inner binding, so nothing is known of the outer one.
+    fn leave_scope(&mut self, outer: &RichAbstractState, block: &[Stmt]) {
+        for v in collect_lets(block) {
+            if outer.types.contains_key(&v) || outer.intervals.vars.contains_key(&v) {
+                self.invalidate_var(v);
+                self.forget_range(v);
+                self.aliases.taint(v);
+            }
+        }
+    }
+
     /// Forget every scalar fact about `sym` (used when its value is overwritten
     /// or produced by an operation we do not model). Rebinding can change
     /// KIND too, so the collection proof drops with it.
@@ -5201,6 +5253,7 @@ fn rich_walk_if(
     st: &mut RichAbstractState,
     facts: &mut OracleFacts,
 ) {
+    let outer = st.clone();
     match eval_condition(cond, &st.intervals) {
         Some(true) => {
             narrow_state(cond, &mut st.intervals);
@@ -5226,6 +5279,10 @@ fn rich_walk_if(
             *st = rich_join(&then_st, &else_st);
         }
     }
+    st.leave_scope(&outer, then_block);
+    if let Some(eb) = else_block {
+        st.leave_scope(&outer, eb);
+    }
 }
 
 /// Refine a loop-INVARIANT bound variable's interval lower from the guard the
@@ -5494,6 +5551,19 @@ fn rich_walk_loop(
                 }
             }
         }
+        // One descending pass: widening overshot, and the header state is exactly
+        // what the entry and the end of the body bring there.
+        let mut next = inside.clone();
+        if let Some(c) = cond {
+            narrow_state(c, &mut next.intervals);
+        }
+        rich_walk_block(body, &mut next, &mut sink);
+        for &m in &mutated {
+            let iv = st.intervals.get_var(&m).join(&next.intervals.get_var(&m));
+            if Some(m) != loop_var && iv.leq(&inside.intervals.get_var(&m)) {
+                inside.intervals.set_var(m, iv);
+            }
+        }
         // Record body facts at the invariant UNDER the loop condition (the
         // body only runs when it holds), then build the after-state: the
         // loop may run zero times (entry state) or exit from the invariant
@@ -5520,8 +5590,26 @@ fn rich_walk_loop(
             }
         }
         rich_walk_block(body, &mut record_state, facts);
+        // The loop exits from the header, reached from entry or from the END of
+        // the body — whose state the guard has not narrowed.
         let mut after = rich_join(st, &inside);
+        for &m in &mutated {
+            let iv = after.intervals.get_var(&m).join(&record_state.intervals.get_var(&m));
+            after.intervals.set_var(m, iv);
+        }
+        after.leave_scope(st, body);
+        // The condition is evaluated at the header on every iteration, not just
+        // in the entry state its facts were first recorded in.
         if let Some(c) = cond {
+            record_expr(c, &after, facts);
+        }
+        if body_breaks(body) {
+            // A `Break` leaves from the MIDDLE of the body with the condition
+            // possibly still true: the header invariant describes neither.
+            for &m in &mutated {
+                after.forget_range(m);
+            }
+        } else if let Some(c) = cond {
             narrow_state_negated(c, &mut after.intervals);
             // Allocation-size fact: a counted build loop establishes a length
             // bound on the array it fills (`st` is the pre-loop entry state —
@@ -5543,9 +5631,6 @@ fn rich_walk_loop(
         *st = after;
     } else {
         // Sound fallback: forget everything the body can write.
-        if let Some(c) = cond {
-            narrow_state_negated(c, &mut st.intervals);
-        }
         for m in mutated {
             st.intervals.set_var(m, Interval::top());
             st.intervals.set_length(m, Interval::non_negative());
@@ -5554,6 +5639,12 @@ fn rich_walk_loop(
             st.nullability.insert(m, Nullability::Maybe);
             st.coll_vars.remove(&m);
         }
+        if let Some(c) = cond {
+            record_expr(c, st, facts);
+        }
+        if let (Some(c), false) = (cond, body_breaks(body)) {
+            narrow_state_negated(c, &mut st.intervals);
+        }
     }
 }
 
@@ -5566,7 +5657,9 @@ fn rich_walk_inspect(
     if arms.is_empty() {
         return;
     }
-    let mut acc: Option<RichAbstractState> = None;
+    // Without a catch-all arm, no arm may match.
+    let mut acc: Option<RichAbstractState> =
+        arms.iter().all(|a| a.variant.is_some()).then(|| st.clone());
     for arm in arms {
         let mut arm_st = st.clone();
         // A concrete-variant arm proves the scrutinee (and its field bindings)
@@ -5582,10 +5675,14 @@ fn rich_walk_inspect(
         // Field bindings extract handles from the scrutinee — unknown
         // provenance for the alias domain.
         for (_field, binding) in &arm.bindings {
+            arm_st.forget_range(*binding);
+            arm_st.types.remove(binding);
+            arm_st.coll_vars.remove(binding);
             arm_st.aliases.unlink(*binding);
             arm_st.aliases.taint(*binding);
         }
         rich_walk_block(arm.body, &mut arm_st, facts);
+        arm_st.leave_scope(st, arm.body);
         acc = Some(match acc {
             None => arm_st,
             Some(prev) => rich_join(&prev, &arm_st),
-- 
2.43.0


From bd1f6cddc1ffa760ad1b9b7becc47bc804b333a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:33:33 +0000
Subject: [PATCH 13/45] fix: strength-reduced division and remainder accept
 integers past 64 bits

---
 .../logicaffeine_compile/src/vm/compiler.rs   | 19 ++++++++++++++++++-
 crates/logicaffeine_compile/src/vm/machine.rs | 19 +++++++++++++------
 2 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/crates/logicaffeine_compile/src/vm/compiler.rs b/crates/logicaffeine_compile/src/vm/compiler.rs
index 6189d7a..405874e 100644
--- a/crates/logicaffeine_compile/src/vm/compiler.rs
+++ b/crates/logicaffeine_compile/src/vm/compiler.rs
@@ -84,6 +84,21 @@ pub fn magic_eval(x: i64, magic: u64, more: u8, mul_back: i64) -> i64 {
     }
 }
 
+/// The divisor `c` a reciprocal was generated for: the least `x` whose quotient
+/// is non-zero. Only the (rare) dividend outside `i64` needs it.
+pub fn magic_divisor(magic: u64, more: u8) -> i64 {
+    let (mut lo, mut hi) = (1i64, i64::MAX);
+    while lo < hi {
+        let mid = lo + (hi - lo) / 2;
+        if magic_eval(mid, magic, more, 0) == 0 {
+            lo = mid + 1;
+        } else {
+            hi = mid;
+        }
+    }
+    lo
+}
+
 /// Constant-pool dedup key. Floats are keyed by bit pattern so that distinct
 /// NaN payloads and -0.0/0.0 stay distinct pool entries.
 #[derive(Clone, PartialEq, Eq, Hash)]
@@ -971,7 +986,9 @@ impl<'i> Compiler<'i> {
         if oracle.expr_scalar(left)? != crate::optimize::ScalarKind::Int {
             return None;
         }
-        if !oracle.expr_proven_nonneg(left) {
+        // Non-negative AND bounded: `&` takes only 64-bit integers, while an
+        // unbounded dividend may have outgrown them.
+        if !matches!(oracle.expr_int_range(left), Some((lo, _)) if lo >= 0) {
             return None;
         }
         Some(d - 1)
diff --git a/crates/logicaffeine_compile/src/vm/machine.rs b/crates/logicaffeine_compile/src/vm/machine.rs
index 1e3bffc..c31871c 100644
--- a/crates/logicaffeine_compile/src/vm/machine.rs
+++ b/crates/logicaffeine_compile/src/vm/machine.rs
@@ -2002,12 +2002,19 @@ impl<'p> Vm<'p> {
                     // `lhs / c` / `lhs % c` by the precomputed magic reciprocal
                     // (`magic`/`more`). Emitted only for an Oracle-proven Int,
                     // non-negative `lhs`, so the result is bit-identical to
-                    // `Op::Div`/`Op::Mod` by the constant `c`.
-                    let x = self.reg(lhs).as_int().ok_or_else(|| {
-                        "MagicDivU on a non-Int operand".to_string()
-                    })?;
-                    let v = crate::vm::compiler::magic_eval(x, magic, more, mul_back);
-                    self.set(dst, Value::int(v));
+                    // `Op::Div`/`Op::Mod` by the constant `c`. A dividend that
+                    // outgrew 64 bits takes the general operation.
+                    let v = match self.reg(lhs).as_int() {
+                        Some(x) => {
+                            Value::int(crate::vm::compiler::magic_eval(x, magic, more, mul_back))
+                        }
+                        None if mul_back == 0 => {
+                            let c = crate::vm::compiler::magic_divisor(magic, more);
+                            self.reg(lhs).div(&Value::int(c))?
+                        }
+                        None => self.reg(lhs).modulo(&Value::int(mul_back))?,
+                    };
+                    self.set(dst, v);
                     pc += 1;
                 }
                 Op::Lt { dst, lhs, rhs } => { self.binop(dst, lhs, rhs, Value::lt)?; pc += 1; }
-- 
2.43.0


From bf5ec26df00c08f565d0d26474c85aa4fd8cd539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:33:33 +0000
Subject: [PATCH 14/45] fix: native functions re-box every reachable overflow
 exit

---
 crates/logicaffeine_jit/src/lib.rs | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/crates/logicaffeine_jit/src/lib.rs b/crates/logicaffeine_jit/src/lib.rs
index 5ea1bdf..3bc9070 100644
--- a/crates/logicaffeine_jit/src/lib.rs
+++ b/crates/logicaffeine_jit/src/lib.rs
@@ -1664,17 +1664,9 @@ fn adapt_function(
     let mut i = 0usize;
     while i < ops.len() {
         if mode_b {
-            let deoptable = matches!(
-                ops[i],
-                Op::Div { .. }
-                    | Op::Mod { .. }
-                    | Op::Index { .. }
-                    | Op::IndexUnchecked { .. }
-                    | Op::SetIndex { .. }
-                    | Op::SetIndexUnchecked { .. }
-                    | Op::Call { .. }
-            );
-            if deoptable && kin[i].is_some() {
+            // Any op may side-exit (`+`, `-` and `*` do on overflow), so every
+            // reachable one is a pause point.
+            if kin[i].is_some() {
                 if capture(i, &kin, &pin_of).is_none() {
                     jt("capture");
                     return None;
-- 
2.43.0


From 960a6e550cebb2d705802356cd5cbc9d356d3abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:33:33 +0000
Subject: [PATCH 15/45] fix: do not hoist a loop constant whose slot is live at
 the loop head

---
 crates/logicaffeine_forge/src/regalloc.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/logicaffeine_forge/src/regalloc.rs b/crates/logicaffeine_forge/src/regalloc.rs
index 306c910..79350a8 100644
--- a/crates/logicaffeine_forge/src/regalloc.rs
+++ b/crates/logicaffeine_forge/src/regalloc.rs
@@ -838,7 +838,11 @@ struct ConstHoist {
 ///     writer in the span is this `LoadConst`) — so the register holds the same
 ///     constant bits on every iteration. A slot reused for two different
 ///     constants (a scratch `LoadConst {dst,0}` then `LoadConst {dst,1}`) has two
-///     writers and is therefore NOT hoisted.
+///     writers and is therefore NOT hoisted;
+///  4. hoisting past a skipped execution is unobservable: the value `dst` holds
+///     on reaching `head` is never read (not live there), and `dst` is read by
+///     SOME op — a slot no op reads exists only for the caller to observe at
+///     exit (the region-return flag), where "was this executed?" is the point.
 ///
 /// Register-residency is NOT decided here (the analysis is purely structural over
 /// the op stream); the caller filters to `dst`s that are actually `Loc::Reg`/
@@ -854,6 +858,11 @@ fn loop_invariant_const_hoists(ops: &[MicroOp]) -> Vec<ConstHoist> {
             }
         }
     }
+    let live_after = liveness_after(ops, max_slot_of(ops));
+    let mut read: Vec<Slot> = Vec::new();
+    for op in ops {
+        read_slots_of(op, &mut read);
+    }
     let mut chosen: Vec<ConstHoist> = Vec::new();
     for (i, op) in ops.iter().enumerate() {
         let MicroOp::LoadConst { dst, value } = *op else { continue };
@@ -882,7 +891,7 @@ fn loop_invariant_const_hoists(ops: &[MicroOp]) -> Vec<ConstHoist> {
             .iter()
             .enumerate()
             .all(|(off, o)| head + off == i || dest_of(o) != Some(dst));
-        if sole_writer {
+        if sole_writer && read.contains(&dst) && !live_after[back][dst as usize] {
             chosen.push(ConstHoist { op: i, head, dst, value });
         }
     }
-- 
2.43.0


From 49d5ef290a761c9c65b389e960619118f3d8e010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:33:33 +0000
Subject: [PATCH 16/45] fix: accumulator rewrite only for call-free integer
 recursion in tail position

---
 crates/logicaffeine_compile/src/tail_call.rs | 97 +++++++++++++++++++-
 1 file changed, 92 insertions(+), 5 deletions(-)

diff --git a/crates/logicaffeine_compile/src/tail_call.rs b/crates/logicaffeine_compile/src/tail_call.rs
index 2c671ab..2d47844 100644
--- a/crates/logicaffeine_compile/src/tail_call.rs
+++ b/crates/logicaffeine_compile/src/tail_call.rs
@@ -23,7 +23,7 @@
 
 use std::collections::HashSet;
 
-use crate::ast::stmt::{BinaryOpKind, Expr, Literal, Stmt};
+use crate::ast::stmt::{BinaryOpKind, Expr, Literal, Stmt, TypeExpr};
 use crate::optimization::Opt;
 use crate::intern::{Interner, Symbol};
 use crate::Arena;
@@ -131,6 +131,53 @@ fn expr_contains_self_call(func: Symbol, e: &Expr) -> bool {
     }
 }
 
+/// Is `e` built only from values and operators, with no call of any kind? The
+/// fold evaluates the non-recursive operand BEFORE the recursion instead of
+/// after it, so an operand that could have an effect must stay where it is.
+fn expr_is_call_free(e: &Expr) -> bool {
+    match e {
+        Expr::Literal(_) | Expr::Identifier(_) => true,
+        Expr::BinaryOp { left, right, .. } => expr_is_call_free(left) && expr_is_call_free(right),
+        Expr::Index { collection, index } => {
+            expr_is_call_free(collection) && expr_is_call_free(index)
+        }
+        Expr::FieldAccess { object, .. } => expr_is_call_free(object),
+        Expr::Not { operand } => expr_is_call_free(operand),
+        Expr::Length { collection } => expr_is_call_free(collection),
+        _ => false,
+    }
+}
+
+/// Does a `Return` sit inside anything but `If` branches (a loop, an `Inspect`
+/// arm, …)? The fold rewrites only `Return`s reached through `If`s, so any other
+/// one would leave without the accumulated part.
+fn has_return_outside_ifs(body: &[Stmt]) -> bool {
+    fn any_return(body: &[Stmt]) -> bool {
+        body.iter().any(|s| match s {
+            Stmt::Return { .. } => true,
+            Stmt::If { then_block, else_block, .. } => {
+                any_return(then_block) || else_block.is_some_and(|e| any_return(e))
+            }
+            Stmt::While { body, .. } | Stmt::Repeat { body, .. } | Stmt::Zone { body, .. } => {
+                any_return(body)
+            }
+            Stmt::Inspect { arms, .. } => arms.iter().any(|a| any_return(a.body)),
+            _ => false,
+        })
+    }
+    body.iter().any(|s| match s {
+        Stmt::If { then_block, else_block, .. } => {
+            has_return_outside_ifs(then_block)
+                || else_block.is_some_and(|e| has_return_outside_ifs(e))
+        }
+        Stmt::While { body, .. } | Stmt::Repeat { body, .. } | Stmt::Zone { body, .. } => {
+            any_return(body)
+        }
+        Stmt::Inspect { arms, .. } => arms.iter().any(|a| any_return(a.body)),
+        _ => false,
+    })
+}
+
 /// A self-call anywhere OTHER than a `Return` expression disqualifies the
 /// accumulator transform (the fold would not capture it).
 fn has_non_return_self_calls(func: Symbol, body: &[Stmt]) -> bool {
@@ -196,10 +243,10 @@ fn find_accumulator_return(func: Symbol, body: &[Stmt]) -> Option<AccumulatorInf
                 let identity = if matches!(op, BinaryOpKind::Add) { 0 } else { 1 };
                 let left_call = expr_is_self_call(func, left);
                 let right_call = expr_is_self_call(func, right);
-                if left_call && !expr_contains_self_call(func, right) {
+                if left_call && expr_is_call_free(right) {
                     return Some(AccumulatorInfo { op: *op, identity, non_recursive_side: NonRecSide::Right });
                 }
-                if right_call && !expr_contains_self_call(func, left) {
+                if right_call && expr_is_call_free(left) {
                     return Some(AccumulatorInfo { op: *op, identity, non_recursive_side: NonRecSide::Left });
                 }
             }
@@ -223,7 +270,7 @@ fn find_accumulator_return(func: Symbol, body: &[Stmt]) -> Option<AccumulatorInf
 /// one recursive return of the form `Return self(args) OP nonRec` (or swapped)
 /// with `OP ∈ {+, *}`, and no self-call outside a `Return`.
 pub(crate) fn detect_accumulator_pattern(func: Symbol, body: &[Stmt]) -> Option<AccumulatorInfo> {
-    if has_non_return_self_calls(func, body) {
+    if has_non_return_self_calls(func, body) || has_return_outside_ifs(body) {
         return None;
     }
     let (base, recursive) = count_recursive_returns(func, body);
@@ -276,7 +323,8 @@ fn accumulator_rewrite_of<'a>(
     expr_arena: &'a Arena<Expr<'a>>,
     interner: &mut Interner,
 ) -> Option<Stmt<'a>> {
-    let Stmt::FunctionDef { name, params, body, is_native, is_exported, opt_flags, .. } = s else {
+    let Stmt::FunctionDef { name, params, body, return_type, is_native, is_exported, opt_flags, .. } = s
+    else {
         return None;
     };
     let body: &'a [Stmt<'a>] = *body;
@@ -291,7 +339,18 @@ fn accumulator_rewrite_of<'a>(
     // pair (that is a non-return self-call), so those keep their own constant-
     // stack lowering and never reach here.
     let acc = detect_accumulator_pattern(*name, body)?;
+    // Folding regroups the operator: exact for integers, wrong for text
+    // (order) and floats (rounding).
+    if !matches!(return_type, Some(TypeExpr::Primitive(t) | TypeExpr::Named(t)) if matches!(interner.resolve(*t), "Int" | "Nat"))
+    {
+        return None;
+    }
     let param_syms: Vec<Symbol> = params.iter().map(|(p, _)| *p).collect();
+    // The rewritten recursive return falls through to the loop head, so it must
+    // be the last thing its path does, and every path must end by returning.
+    if !returns_in_tail_position(*name, body) || binds_any(body, &param_syms) {
+        return None;
+    }
     let new_body = build_accumulator_loop(body, *name, &param_syms, acc, stmt_arena, expr_arena, interner);
     let mut fd = s.clone();
     if let Stmt::FunctionDef { body: b, .. } = &mut fd {
@@ -300,6 +359,34 @@ fn accumulator_rewrite_of<'a>(
     Some(fd)
 }
 
+/// Does every path through `body` end in a `Return`, with the recursive one
+/// followed by nothing?
+fn returns_in_tail_position(func: Symbol, body: &[Stmt]) -> bool {
+    let Some((last, init)) = body.split_last() else { return false };
+    if count_recursive_returns(func, init).1 != 0 {
+        return false;
+    }
+    match last {
+        Stmt::Return { .. } => true,
+        Stmt::If { then_block, else_block: Some(e), .. } => {
+            returns_in_tail_position(func, then_block) && returns_in_tail_position(func, e)
+        }
+        _ => false,
+    }
+}
+
+/// Does `body` rebind one of `names` with a `Let` (shadowing the parameter the
+/// fold would reassign)?
+fn binds_any(body: &[Stmt], names: &[Symbol]) -> bool {
+    body.iter().any(|s| match s {
+        Stmt::Let { var, .. } => names.contains(var),
+        Stmt::If { then_block, else_block, .. } => {
+            binds_any(then_block, names) || else_block.is_some_and(|e| binds_any(e, names))
+        }
+        _ => false,
+    })
+}
+
 /// `Let mutable __acc be <identity>. While true: <body with returns folded>.`
 fn build_accumulator_loop<'a>(
     body: &'a [Stmt<'a>],
-- 
2.43.0


From 5475dbd7517aa8ac55c9157b0db16e44a27f10c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:33:33 +0000
Subject: [PATCH 17/45] fix: negative odd numbers are odd

---
 crates/logicaffeine_language/src/parser/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/logicaffeine_language/src/parser/mod.rs b/crates/logicaffeine_language/src/parser/mod.rs
index 9d0a7f7..b8b64ad 100644
--- a/crates/logicaffeine_language/src/parser/mod.rs
+++ b/crates/logicaffeine_language/src/parser/mod.rs
@@ -3113,7 +3113,8 @@ impl<'a, 'ctx, 'int> Parser<'a, 'ctx, 'int> {
 
             // Number predicates desugar to a complete modulo test (no right
             // operand to combine) — return the whole Bool expression directly:
-            // `x is even` → `x % 2 == 0`, `x is odd` → `x % 2 == 1`,
+            // `x is even` → `x % 2 == 0`, `x is odd` → `x % 2 != 0` (a negative
+            // odd number leaves remainder -1),
             // `x is divisible by n` → `x % n == 0`.
             if self.check_word("even") || self.check_word("odd") {
                 let is_odd = self.check_word("odd");
@@ -3123,10 +3124,10 @@ impl<'a, 'ctx, 'int> Parser<'a, 'ctx, 'int> {
                     op: BinaryOpKind::Modulo, left, right: two,
                 });
                 let want = self.ctx.alloc_imperative_expr(Expr::Literal(
-                    crate::ast::Literal::Number(if is_odd { 1 } else { 0 }),
+                    crate::ast::Literal::Number(0),
                 ));
                 return Ok(self.ctx.alloc_imperative_expr(Expr::BinaryOp {
-                    op: BinaryOpKind::Eq, left: rem, right: want,
+                    op: if is_odd { BinaryOpKind::NotEq } else { BinaryOpKind::Eq }, left: rem, right: want,
                 }));
             }
             if self.check_word("divisible") {
-- 
2.43.0


From 5defef8bdb46925a35d0b04216cb055ff9d06cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:33:48 +0000
Subject: [PATCH 18/45] fix: do not reuse or specialise a function on an
 argument the body changes

The partial evaluator defined a specialised copy twice, specialised on
parameters the body reassigns, overflowed on the smallest integer and left
spliced statements unsubstituted.
---
 .../src/optimize/partial_eval.rs              | 23 ++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/crates/logicaffeine_compile/src/optimize/partial_eval.rs b/crates/logicaffeine_compile/src/optimize/partial_eval.rs
index 946bb5c..9e9ebad 100644
--- a/crates/logicaffeine_compile/src/optimize/partial_eval.rs
+++ b/crates/logicaffeine_compile/src/optimize/partial_eval.rs
@@ -71,7 +71,7 @@ fn spec_key_embeds(earlier: &SpecKey, later: &SpecKey) -> bool {
 
 fn literal_embeds(a: &Literal, b: &Literal) -> bool {
     match (a, b) {
-        (Literal::Number(x), Literal::Number(y)) => x.abs() <= y.abs(),
+        (Literal::Number(x), Literal::Number(y)) => x.unsigned_abs() <= y.unsigned_abs(),
         (Literal::Float(x), Literal::Float(y)) => x.abs() <= y.abs(),
         (Literal::Boolean(_), Literal::Boolean(_)) => true,
         (Literal::Text(x), Literal::Text(y)) => x.index() <= y.index(),
@@ -581,6 +581,9 @@ fn substitute_stmt<'a>(
             condition: substitute_expr(condition, substitutions, expr_arena),
             hard: *hard,
         },
+        Stmt::Splice { body } => Stmt::Splice {
+            body: stmt_arena.alloc_slice(substitute_block(body, substitutions, expr_arena, stmt_arena)),
+        },
         other => other.clone(),
     }
 }
@@ -685,8 +688,26 @@ fn try_specialize_call<'a>(
         return None;
     }
 
+    // A static parameter the body reassigns is not a constant of the body.
+    let written = super::abstract_interp::collect_mutations(func_info.body);
+    if func_info.params.iter().zip(classifications.iter())
+        .any(|((param, _), c)| c.is_some() && written.contains(param))
+    {
+        return None;
+    }
+
     let spec_name = make_spec_name(interner, func_info.name, &classifications);
 
+    // An earlier round of the fixpoint already defined this variant.
+    if func_defs.contains_key(&spec_name) {
+        registry.cache.insert(key, spec_name);
+        let dynamic_args: Vec<&'a Expr<'a>> = args.iter().zip(classifications.iter())
+            .filter(|(_, c)| c.is_none())
+            .map(|(a, _)| *a)
+            .collect();
+        return Some((spec_name, dynamic_args));
+    }
+
     let mut substitutions: HashMap<Symbol, &'a Expr<'a>> = HashMap::new();
     let mut new_params: Vec<(Symbol, &'a TypeExpr<'a>)> = Vec::new();
 
-- 
2.43.0


From 8a7d5554b0cf3885e43ee99fddf2bb07226c54a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:33:48 +0000
Subject: [PATCH 19/45] fix: count every mention of a closure before removing
 it

A closure used inside a list, slice or call was dropped as unused, and a
versioned loop hid a counter that is read after the loop.
---
 .../src/optimize/bound_version.rs             | 12 +++++--
 .../src/optimize/defunctionalize.rs           | 33 +++++--------------
 2 files changed, 18 insertions(+), 27 deletions(-)

diff --git a/crates/logicaffeine_compile/src/optimize/bound_version.rs b/crates/logicaffeine_compile/src/optimize/bound_version.rs
index 3c5f049..6e85f98 100644
--- a/crates/logicaffeine_compile/src/optimize/bound_version.rs
+++ b/crates/logicaffeine_compile/src/optimize/bound_version.rs
@@ -83,8 +83,16 @@ fn version_block<'a>(
             if let (init @ (Stmt::Let { .. } | Stmt::Set { .. }), Stmt::While { .. }) =
                 (&stmts[i], &stmts[i + 1])
             {
-                if let Some(versioned) =
-                    try_version_nest(init, &stmts[i + 1], helpers, ea, sa)
+                // The IV's binding moves into the versioned branches: refuse when
+                // the rest of the block still reads it.
+                let read_later = match init {
+                    Stmt::Let { var, .. } => stmts[i + 2..]
+                        .iter()
+                        .any(|s| super::defunctionalize::stmt_mentions(s, *var)),
+                    _ => false,
+                };
+                if let (false, Some(versioned)) =
+                    (read_later, try_version_nest(init, &stmts[i + 1], helpers, ea, sa))
                 {
                     result.push(versioned);
                     i += 2;
diff --git a/crates/logicaffeine_compile/src/optimize/defunctionalize.rs b/crates/logicaffeine_compile/src/optimize/defunctionalize.rs
index 2a44c4a..d1fb6f8 100644
--- a/crates/logicaffeine_compile/src/optimize/defunctionalize.rs
+++ b/crates/logicaffeine_compile/src/optimize/defunctionalize.rs
@@ -564,28 +564,7 @@ fn expr_uses_ok(e: &Expr, var: Symbol, arity: usize) -> bool {
         Expr::Index { collection, index } => {
             expr_uses_ok(collection, var, arity) && expr_uses_ok(index, var, arity)
         }
-        Expr::Slice { collection, start, end } => {
-            expr_uses_ok(collection, var, arity)
-                && expr_uses_ok(start, var, arity)
-                && expr_uses_ok(end, var, arity)
-        }
-        Expr::Copy { expr } => expr_uses_ok(expr, var, arity),
         Expr::Length { collection } => expr_uses_ok(collection, var, arity),
-        Expr::Contains { collection, value } => {
-            expr_uses_ok(collection, var, arity) && expr_uses_ok(value, var, arity)
-        }
-        Expr::List(items) | Expr::Tuple(items) => {
-            items.iter().all(|i| expr_uses_ok(i, var, arity))
-        }
-        Expr::Range { start, end, .. } => {
-            expr_uses_ok(start, var, arity) && expr_uses_ok(end, var, arity)
-        }
-        Expr::FieldAccess { object, .. } => expr_uses_ok(object, var, arity),
-        Expr::OptionSome { value } => expr_uses_ok(value, var, arity),
-        Expr::Give { value } => expr_uses_ok(value, var, arity),
-        Expr::WithCapacity { value, capacity } => {
-            expr_uses_ok(value, var, arity) && expr_uses_ok(capacity, var, arity)
-        }
         // A use inside ANOTHER closure's body escapes this analysis (the
         // closure may itself lift or outlive the binding) — fail closed
         // when the body could mention the name.
@@ -598,7 +577,7 @@ fn expr_uses_ok(e: &Expr, var: Symbol, arity: usize) -> bool {
                 ClosureBody::Block(stmts) => !stmts.iter().any(|s| stmt_mentions(s, var)),
             }
         }
-        // Unrecognized expression shape: admit only if provably silent.
+        // A shape `rewrite_expr` leaves verbatim: admit only if provably silent.
         other => !expr_mentions(other, var),
     }
 }
@@ -615,7 +594,9 @@ fn expr_mentions(e: &Expr, var: Symbol) -> bool {
             expr_mentions(left, var) || expr_mentions(right, var)
         }
         Expr::Not { operand } => expr_mentions(operand, var),
-        Expr::Call { args, .. } => args.iter().any(|a| expr_mentions(a, var)),
+        Expr::Call { function, args } => {
+            *function == var || args.iter().any(|a| expr_mentions(a, var))
+        }
         Expr::CallExpr { callee, args } => {
             expr_mentions(callee, var) || args.iter().any(|a| expr_mentions(a, var))
         }
@@ -655,7 +636,7 @@ fn expr_mentions(e: &Expr, var: Symbol) -> bool {
     }
 }
 
-fn stmt_mentions(s: &Stmt, var: Symbol) -> bool {
+pub(super) fn stmt_mentions(s: &Stmt, var: Symbol) -> bool {
     match s {
         Stmt::Let { value, .. } | Stmt::Set { value, .. } => expr_mentions(value, var),
         Stmt::Show { object, .. } => expr_mentions(object, var),
@@ -672,7 +653,9 @@ fn stmt_mentions(s: &Stmt, var: Symbol) -> bool {
         Stmt::SetField { object, value, .. } => {
             expr_mentions(object, var) || expr_mentions(value, var)
         }
-        Stmt::Call { args, .. } => args.iter().any(|a| expr_mentions(a, var)),
+        Stmt::Call { function, args } => {
+            *function == var || args.iter().any(|a| expr_mentions(a, var))
+        }
         Stmt::If { cond, then_block, else_block } => {
             expr_mentions(cond, var)
                 || then_block.iter().any(|b| stmt_mentions(b, var))
-- 
2.43.0


From 413b1446b893524573826e0a8297256423e5aa86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:33:48 +0000
Subject: [PATCH 20/45] fix: forget ranges the value analysis can no longer
 prove

Lengths after Pop, Remove and map writes, element ranges of rebound or shared
lists, joins of two unknown branches and results past 64 bits were reported as
proven, and a decided condition dropped the call inside it.
---
 .../src/optimize/abstract_interp.rs           | 132 ++++++++++++++----
 1 file changed, 102 insertions(+), 30 deletions(-)

diff --git a/crates/logicaffeine_compile/src/optimize/abstract_interp.rs b/crates/logicaffeine_compile/src/optimize/abstract_interp.rs
index ccbc13b..dbdbf17 100644
--- a/crates/logicaffeine_compile/src/optimize/abstract_interp.rs
+++ b/crates/logicaffeine_compile/src/optimize/abstract_interp.rs
@@ -44,7 +44,7 @@ impl Bound {
             (Bound::Finite(a), Bound::Finite(b)) => {
                 match a.checked_sub(*b) {
                     Some(r) => Bound::Finite(r),
-                    None => if *a > 0 { Bound::PosInf } else { Bound::NegInf },
+                    None => if *a >= 0 { Bound::PosInf } else { Bound::NegInf },
                 }
             }
             (Bound::PosInf, Bound::PosInf) | (Bound::NegInf, Bound::NegInf) => Bound::NegInf,
@@ -264,11 +264,22 @@ impl Interval {
             && self.hi.cmp_bound(&other.hi) != std::cmp::Ordering::Greater
     }
 
+    /// A result past the i64 range is a bigger integer, not an infinity: two such
+    /// values are not known to be equal or ordered.
+    fn beyond_i64(self) -> Interval {
+        match (&self.lo, &self.hi) {
+            (Bound::PosInf, Bound::PosInf) => Interval { lo: Bound::Finite(i64::MAX), hi: Bound::PosInf },
+            (Bound::NegInf, Bound::NegInf) => Interval { lo: Bound::NegInf, hi: Bound::Finite(i64::MIN) },
+            _ => self,
+        }
+    }
+
     fn add(&self, other: &Interval) -> Interval {
         Interval {
             lo: self.lo.add(&other.lo),
             hi: self.hi.add(&other.hi),
         }
+        .beyond_i64()
     }
 
     fn sub(&self, other: &Interval) -> Interval {
@@ -276,6 +287,7 @@ impl Interval {
             lo: self.lo.sub(&other.hi),
             hi: self.hi.sub(&other.lo),
         }
+        .beyond_i64()
     }
 
     fn mul(&self, other: &Interval) -> Interval {
@@ -295,15 +307,17 @@ impl Interval {
             lo = Bound::min_bound(&lo, c);
             hi = Bound::max_bound(&hi, c);
         }
-        Interval { lo, hi }
+        Interval { lo, hi }.beyond_i64()
     }
 
     fn div(&self, other: &Interval) -> Interval {
         if let (Some(a), Some(b)) = (self.is_exact(), other.is_exact()) {
             if b != 0 {
-                // `wrapping_div` matches the runtime (semantics/arith.rs) and
-                // avoids the `i64::MIN / -1` overflow panic of raw `/`.
-                return Interval::exact(a.wrapping_div(b));
+                // `i64::MIN / -1` is the one quotient outside i64; the bounds
+                // below place it.
+                if let Some(q) = a.checked_div(b) {
+                    return Interval::exact(q);
+                }
             }
         }
         // Constant nonzero divisor, arbitrary dividend range. Truncating
@@ -313,9 +327,9 @@ impl Interval {
         // fixpoint can bound `seed / 65536`, `hi / 2`, etc.
         if let Some(k) = other.is_exact() {
             if k > 0 {
-                return Interval { lo: self.lo.div_by(k), hi: self.hi.div_by(k) };
+                return Interval { lo: self.lo.div_by(k), hi: self.hi.div_by(k) }.beyond_i64();
             } else if k < 0 {
-                return Interval { lo: self.hi.div_by(k), hi: self.lo.div_by(k) };
+                return Interval { lo: self.hi.div_by(k), hi: self.lo.div_by(k) }.beyond_i64();
             }
         }
         Interval::top()
@@ -1121,14 +1135,18 @@ impl AbstractState {
     }
 
     /// Record an element written into `sym`: JOIN with the existing element
-    /// bound (every element must satisfy the union). Absent means "no element
-    /// yet" — the first write seeds it exactly.
+    /// bound (every element must satisfy the union). Absent means unknown, and
+    /// stays so: the elements already there may be anything.
     fn observe_elem(&mut self, sym: Symbol, range: Interval) {
-        let joined = match self.elem.get(&sym) {
-            Some(existing) => existing.join(&range),
-            None => range,
-        };
-        self.elem.insert(sym, joined);
+        if let Some(existing) = self.elem.get(&sym) {
+            let joined = existing.join(&range);
+            self.elem.insert(sym, joined);
+        }
+    }
+
+    /// The element bound of a collection just bound to a known value.
+    fn seed_elem(&mut self, sym: Symbol, range: Interval) {
+        self.elem.insert(sym, range);
     }
 
     /// Forget the element bound (collection rebound, aliased, or written with
@@ -1185,6 +1203,18 @@ fn eval_expr(expr: &Expr, state: &AbstractState) -> Interval {
     }
 }
 
+/// Whether evaluating `e` only reads: operators over variables and literals.
+fn reads_only(e: &Expr) -> bool {
+    match e {
+        Expr::Literal(_) | Expr::Identifier(_) => true,
+        Expr::BinaryOp { left, right, .. } => reads_only(left) && reads_only(right),
+        Expr::Not { operand } => reads_only(operand),
+        Expr::Length { collection } => reads_only(collection),
+        Expr::Index { collection, index } => reads_only(collection) && reads_only(index),
+        _ => false,
+    }
+}
+
 fn eval_condition(cond: &Expr, state: &AbstractState) -> Option<bool> {
     match cond {
         Expr::Literal(Literal::Boolean(b)) => Some(*b),
@@ -1372,7 +1402,8 @@ fn interp_block<'a>(
                 if let Some(eb) = else_block {
                     branch_lets.extend(collect_lets(eb));
                 }
-                if let Some(val) = eval_condition(cond, state) {
+                // Deciding a condition drops its evaluation, so it must do nothing else.
+                if let Some(val) = eval_condition(cond, state).filter(|_| reads_only(cond)) {
                     let new_cond = expr_arena.alloc(Expr::Literal(Literal::Boolean(val)));
                     if val {
                         let mut then_state = state.clone();
@@ -1534,6 +1565,8 @@ fn join_states(out: &mut AbstractState, a: &AbstractState, b: &AbstractState) {
     let mut all_keys: std::collections::HashSet<Symbol> = a.vars.keys().cloned().collect();
     all_keys.extend(b.vars.keys().cloned());
 
+    // What neither side knows any more is unknown afterwards.
+    out.vars.retain(|key, _| all_keys.contains(key));
     for key in all_keys {
         let a_range = a.vars.get(&key).cloned().unwrap_or(Interval::top());
         let b_range = b.vars.get(&key).cloned().unwrap_or(Interval::top());
@@ -1543,6 +1576,7 @@ fn join_states(out: &mut AbstractState, a: &AbstractState, b: &AbstractState) {
     let mut len_keys: std::collections::HashSet<Symbol> = a.lengths.keys().cloned().collect();
     len_keys.extend(b.lengths.keys().cloned());
 
+    out.lengths.retain(|key, _| len_keys.contains(key));
     for key in len_keys {
         let a_len = a.lengths.get(&key).cloned().unwrap_or(Interval::non_negative());
         let b_len = b.lengths.get(&key).cloned().unwrap_or(Interval::non_negative());
@@ -1555,6 +1589,7 @@ fn join_states(out: &mut AbstractState, a: &AbstractState, b: &AbstractState) {
     // branch of a build loop's exit join preserves the filled branch's bound.
     let mut el_keys: std::collections::HashSet<Symbol> = a.elem.keys().cloned().collect();
     el_keys.extend(b.elem.keys().cloned());
+    out.elem.retain(|key, _| el_keys.contains(key));
     for key in el_keys {
         let a_el = a.get_elem(&key);
         let b_el = b.get_elem(&key);
@@ -1572,7 +1607,7 @@ fn bound_length(value: &Expr, state: &AbstractState) -> Interval {
 }
 
 /// Every variable bound by a `Let` anywhere in the block.
-fn collect_lets(block: &[Stmt]) -> Vec<Symbol> {
+pub(super) fn collect_lets(block: &[Stmt]) -> Vec<Symbol> {
     fn walk(block: &[Stmt], out: &mut Vec<Symbol>) {
         for stmt in block {
             match stmt {
@@ -4767,7 +4802,22 @@ fn rich_walk_stmt(stmt: &Stmt, st: &mut RichAbstractState, facts: &mut OracleFac
         // A store leaves the length unchanged but adds an element value: join
         // it into the collection's element bound (the scatter `Set item k of
         // arr to V` case).
-        Stmt::SetIndex { collection, value, .. } => observe_written_elem(collection, value, st),
+        // Storing under a new key makes a MAP longer by one.
+        Stmt::SetIndex { collection, value, .. } => {
+            if let Expr::Identifier(s) = *collection {
+                let shape = st.shapes.get(s).cloned().unwrap_or(CollectionShape::Top);
+                let grown = shape.join(&shape.pushed());
+                let len = st.intervals.get_length(s);
+                let len = len.join(&len.add(&Interval::exact(1)));
+                for a in st.aliases.may_alias(*s) {
+                    let old_shape = st.shapes.get(&a).cloned().unwrap_or(CollectionShape::Top);
+                    let old_len = st.intervals.get_length(&a);
+                    st.shapes.insert(a, old_shape.join(&grown));
+                    st.intervals.set_length(a, old_len.join(&len));
+                }
+            }
+            observe_written_elem(collection, value, st)
+        }
         Stmt::SetField { object, .. } => {
             if let Expr::Identifier(s) = *object {
                 for a in st.aliases.may_alias(*s) {
@@ -5029,6 +5079,12 @@ fn rich_bind(var: Symbol, value: &Expr, st: &mut RichAbstractState) {
     st.param_colls.remove(&var);
 
     let iv = eval_expr(value, &st.intervals);
+    let mut literal_elem = Interval::bottom();
+    if let Expr::List(items) | Expr::Tuple(items) = value {
+        for it in items.iter() {
+            literal_elem = literal_elem.join(&eval_expr(it, &st.intervals));
+        }
+    }
     st.intervals.set_var(var, iv);
     let value_ty = eval_type(value, &st.types, &st.fn_returns, &st.elem_type);
     st.types.insert(var, value_ty);
@@ -5084,19 +5140,16 @@ fn rich_bind(var: Symbol, value: &Expr, st: &mut RichAbstractState) {
             // A fresh empty collection has NO elements: element bound `⊥`, so
             // the first `Push` seeds an exact bound and a 0-trip build loop's
             // exit join keeps the filled branch's bound.
-            st.intervals.observe_elem(var, Interval::bottom());
+            st.intervals.seed_elem(var, Interval::bottom());
         }
         Expr::List(items) | Expr::Tuple(items) => {
             let n = items.len() as u64;
             st.shapes.insert(var, CollectionShape::from_bounds(n, Some(n)));
             st.intervals.set_length(var, Interval::exact(items.len() as i64));
             st.coll_vars.insert(var);
-            // Element bound = join of the literal items (`⊥` for an empty list).
-            let mut el = Interval::bottom();
-            for it in items.iter() {
-                el = el.join(&eval_expr(it, &st.intervals));
-            }
-            st.intervals.observe_elem(var, el);
+            // Element bound = join of the literal items (`⊥` for an empty list),
+            // which may read the collection `var` named until now.
+            st.intervals.seed_elem(var, literal_elem);
             // Element TYPE = join of the item types; an empty list stays fresh
             // (absent), so its later writes seed it exactly.
             let mut item_iter = items.iter();
@@ -5118,7 +5171,7 @@ fn rich_bind(var: Symbol, value: &Expr, st: &mut RichAbstractState) {
             // The alias shares the element bound of its source.
             if st.intervals.elem.contains_key(src) {
                 let e = st.intervals.get_elem(src);
-                st.intervals.observe_elem(var, e);
+                st.intervals.seed_elem(var, e);
             }
             // …and the source's element TYPE (one allocation, same elements).
             if let Some(t) = st.elem_type.get(src).cloned() {
@@ -5151,6 +5204,7 @@ fn rich_bind(var: Symbol, value: &Expr, st: &mut RichAbstractState) {
         Expr::Copy { expr } | Expr::WithCapacity { value: expr, .. } => {
             // A fresh unaliased value of the OPERAND's kind.
             st.shapes.insert(var, CollectionShape::Top);
+            st.intervals.set_length(var, Interval::non_negative());
             let from_coll = matches!(
                 expr,
                 Expr::Identifier(s) if st.coll_vars.contains(s)
@@ -5164,11 +5218,13 @@ fn rich_bind(var: Symbol, value: &Expr, st: &mut RichAbstractState) {
         Expr::Slice { .. } => {
             // A slice that evaluates is always a fresh list.
             st.shapes.insert(var, CollectionShape::Top);
+            st.intervals.set_length(var, Interval::non_negative());
             st.coll_vars.insert(var);
         }
         _ => {
             // Unmodeled producer — kind unknown.
             st.shapes.insert(var, CollectionShape::Top);
+            st.intervals.set_length(var, Interval::non_negative());
             st.coll_vars.remove(&var);
             // Provenance: scalar and definitely-fresh producers stay
             // alias-tracked; anything that can RETURN AN EXISTING HANDLE —
@@ -5199,7 +5255,13 @@ fn rich_grow(collection: &Expr, st: &mut RichAbstractState) {
         let new_len = st.intervals.get_length(sym).add(&Interval::exact(1));
         for a in st.aliases.may_alias(*sym) {
             st.shapes.insert(a, new_shape.clone());
-            st.intervals.set_length(a, new_len.clone());
+            // Another name MAY share the allocation: keep its old length possible.
+            let len = if a == *sym {
+                new_len.clone()
+            } else {
+                st.intervals.get_length(&a).join(&new_len)
+            };
+            st.intervals.set_length(a, len);
             // A resize moves length off its build-time relation — drop it
             // (conservative; a grow keeps `>=` valid but we re-derive cleanly).
             st.length_def.remove(&a);
@@ -5210,11 +5272,21 @@ fn rich_grow(collection: &Expr, st: &mut RichAbstractState) {
 /// `Pop`/`Remove` — one element removed from a shared allocation.
 fn rich_shrink(collection: &Expr, st: &mut RichAbstractState) {
     if let Expr::Identifier(sym) = collection {
-        let new_shape = st.shapes.get(sym).cloned().unwrap_or(CollectionShape::Top).popped();
-        let new_len = st.intervals.get_length(sym).sub(&Interval::exact(1));
+        // Popping an empty collection or removing an absent element leaves the
+        // length as it was.
+        let old_shape = st.shapes.get(sym).cloned().unwrap_or(CollectionShape::Top);
+        let new_shape = old_shape.popped().join(&old_shape);
+        let old_len = st.intervals.get_length(sym);
+        let new_len = old_len.sub(&Interval::exact(1)).join(&old_len).meet(&Interval::non_negative());
         for a in st.aliases.may_alias(*sym) {
             st.shapes.insert(a, new_shape.clone());
-            st.intervals.set_length(a, new_len.clone());
+            // Another name MAY share the allocation: keep its old length possible.
+            let len = if a == *sym {
+                new_len.clone()
+            } else {
+                st.intervals.get_length(&a).join(&new_len)
+            };
+            st.intervals.set_length(a, len);
             // A shrink can break the `length(arr) >= n` lower bound — drop it.
             st.length_def.remove(&a);
         }
@@ -5829,7 +5901,7 @@ fn alias_union(a: &AliasGraph, b: &AliasGraph) -> AliasGraph {
     out
 }
 
-fn collect_mutations(block: &[Stmt]) -> Vec<Symbol> {
+pub(super) fn collect_mutations(block: &[Stmt]) -> Vec<Symbol> {
     let mut out = Vec::new();
     for s in block {
         collect_mut_stmt(s, &mut out);
-- 
2.43.0


From 9f4d41c45378e50769df954d1b62f1803f4ff941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:33:48 +0000
Subject: [PATCH 21/45] fix: keep supercompiled state in step with loops and
 nested blocks

---
 .../src/optimize/supercompile.rs              | 21 ++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/crates/logicaffeine_compile/src/optimize/supercompile.rs b/crates/logicaffeine_compile/src/optimize/supercompile.rs
index 5bd8322..0034974 100644
--- a/crates/logicaffeine_compile/src/optimize/supercompile.rs
+++ b/crates/logicaffeine_compile/src/optimize/supercompile.rs
@@ -610,6 +610,12 @@ fn drive_stmt<'a>(
                         }
                     }
                 }
+                for sym in super::abstract_interp::collect_lets(then_block)
+                    .into_iter()
+                    .chain(else_block.iter().flat_map(|eb| super::abstract_interp::collect_lets(eb)))
+                {
+                    joined.remove(&sym);
+                }
                 env.store = joined;
 
                 Some(Stmt::If {
@@ -679,7 +685,10 @@ fn drive_stmt<'a>(
             for sym in &modified {
                 env.store.remove(sym);
             }
+            let mut after = env.store.clone();
             let driven_body = drive_block(body, env, expr_arena, stmt_arena, interner, depth);
+            // The body may run zero times: keep only what it cannot change.
+            std::mem::swap(&mut env.store, &mut after);
             Some(Stmt::Repeat { pattern, iterable: driven_iter, body: driven_body })
         }
         Stmt::Show { object, recipient } => {
@@ -736,9 +745,13 @@ fn drive_stmt<'a>(
         }
         // Zone blocks: pass through unchanged. Propagating inside zones can
         // eliminate zone escape patterns that the Rust compiler needs to detect.
-        Stmt::Zone { .. } => Some(stmt),
-        // Pass through everything else unchanged
-        other => Some(other),
+        // Pass through everything else unchanged, forgetting what it writes.
+        other => {
+            for sym in super::abstract_interp::collect_mutations(std::slice::from_ref(&other)) {
+                env.store.remove(&sym);
+            }
+            Some(other)
+        }
     }
 }
 
@@ -764,6 +777,8 @@ fn collect_modified_vars_block(stmts: &[Stmt]) -> Vec<Symbol> {
     for stmt in stmts {
         collect_modified_vars_stmt(stmt, &mut modified);
     }
+    modified.extend(super::abstract_interp::collect_mutations(stmts));
+    modified.extend(super::abstract_interp::collect_lets(stmts));
     modified
 }
 
-- 
2.43.0


From dd184048ddc59068b44b88ec3916b1bde04fec5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:33:48 +0000
Subject: [PATCH 22/45] fix: only turn division into a shift when the value
 fits a machine word

The remainder mask the folder emits is also defined on larger integers.
---
 .../logicaffeine_compile/src/optimize/egraph/rules.rs  | 10 ++++++++--
 crates/logicaffeine_compile/src/semantics/arith.rs     |  6 ++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/crates/logicaffeine_compile/src/optimize/egraph/rules.rs b/crates/logicaffeine_compile/src/optimize/egraph/rules.rs
index e3a87eb..3ddd717 100644
--- a/crates/logicaffeine_compile/src/optimize/egraph/rules.rs
+++ b/crates/logicaffeine_compile/src/optimize/egraph/rules.rs
@@ -677,12 +677,18 @@ fn r_mul_pow2_shl(eg: &mut CompilerEGraph, id: NodeId) -> Option<NodeId> {
     None
 }
 
+/// A non-negative dividend that fits a machine word: an unbounded `Int` may be
+/// past 64 bits, where the bit operations do not apply.
+fn proven_word(eg: &mut CompilerEGraph, id: NodeId) -> bool {
+    matches!(eg.int_range(id), Some((lo, hi)) if lo >= 0 && hi < i64::MAX)
+}
+
 fn r_div_pow2_shr(eg: &mut CompilerEGraph, id: NodeId) -> Option<NodeId> {
     if let CompilerENode::Div(l, r) = eg.canonical_node(id) {
         if let Some(n) = eg.int_value(r).and_then(pow2_log) {
             // ORACLE GATE: truncating ÷ and arithmetic shift agree only
             // for proven non-negative dividends.
-            if is_int(eg, l) && eg.proven_nonneg(l) && removable(eg, r) {
+            if is_int(eg, l) && proven_word(eg, l) && removable(eg, r) {
                 let shift = eg.add(CompilerENode::Int(n as i64));
                 let shr = eg.add(CompilerENode::Shr(l, shift));
                 return Some(shr);
@@ -695,7 +701,7 @@ fn r_div_pow2_shr(eg: &mut CompilerEGraph, id: NodeId) -> Option<NodeId> {
 fn r_mod_pow2_and(eg: &mut CompilerEGraph, id: NodeId) -> Option<NodeId> {
     if let CompilerENode::Mod(l, r) = eg.canonical_node(id) {
         if let Some(k) = eg.int_value(r) {
-            if pow2_log(k).is_some() && is_int(eg, l) && eg.proven_nonneg(l) && removable(eg, r) {
+            if pow2_log(k).is_some() && is_int(eg, l) && proven_word(eg, l) && removable(eg, r) {
                 let mask = eg.add(CompilerENode::Int(k - 1));
                 let masked = eg.add(CompilerENode::BitAnd(l, mask));
                 return Some(masked);
diff --git a/crates/logicaffeine_compile/src/semantics/arith.rs b/crates/logicaffeine_compile/src/semantics/arith.rs
index 3a445bd..cb6c357 100644
--- a/crates/logicaffeine_compile/src/semantics/arith.rs
+++ b/crates/logicaffeine_compile/src/semantics/arith.rs
@@ -387,6 +387,12 @@ pub fn binary_op(
             (RuntimeValue::Int(a), RuntimeValue::Int(b)) => Ok(RuntimeValue::Int(a & b)),
             (RuntimeValue::Bool(a), RuntimeValue::Bool(b)) => Ok(RuntimeValue::Bool(a & b)),
             (RuntimeValue::Set(_), RuntimeValue::Set(_)) => set_binop(&left, &right, SetOp::Intersection),
+            // A low-bits mask of an integer past 64 bits: the optimizer turns
+            // `x % 2^k == 0` into this form for every `x`.
+            (RuntimeValue::BigInt(a), RuntimeValue::Int(m)) if *m >= 0 && *m < i64::MAX && m & (m + 1) == 0 => {
+                let rem = a.div_rem(&BigInt::from_i64(m + 1)).and_then(|(_, r)| r.to_i64()).unwrap_or(0);
+                Ok(RuntimeValue::Int(rem.rem_euclid(m + 1)))
+            }
             _ => Err("`&` requires integer, boolean, or Set operands".to_string()),
         },
         // `|` — bitwise OR on Int, union on Sets.
-- 
2.43.0


From 28eee07bd5d9f68bbb2593e318238b7f730cd413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:33:48 +0000
Subject: [PATCH 23/45] fix: keep a flattened block's names and stores before a
 Break or Return

---
 .../logicaffeine_compile/src/optimize/dce.rs  | 30 +++++++++++++++----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/crates/logicaffeine_compile/src/optimize/dce.rs b/crates/logicaffeine_compile/src/optimize/dce.rs
index 13ca808..1aee26e 100644
--- a/crates/logicaffeine_compile/src/optimize/dce.rs
+++ b/crates/logicaffeine_compile/src/optimize/dce.rs
@@ -242,6 +242,10 @@ fn dead_store_elimination<'a>(
             Stmt::Call { .. } | Stmt::Escape { .. } => {
                 last_set.clear();
             }
+            // Leaving the block skips the overwriting store.
+            Stmt::Break | Stmt::Return { .. } => {
+                last_set.clear();
+            }
             _ => {}
         }
     }
@@ -267,14 +271,30 @@ pub fn eliminate_dead_code<'a>(
     // Then: dead branch elimination
     let mut result = Vec::with_capacity(stmts.len());
 
-    for stmt in stmts {
+    let mut rest = stmts.into_iter();
+    while let Some(stmt) = rest.next() {
         match stmt {
             Stmt::If { cond, then_block, else_block } => {
                 if let Expr::Literal(Literal::Boolean(val)) = cond {
-                    if *val {
-                        result.extend(then_block.iter().cloned());
-                    } else if let Some(else_stmts) = else_block {
-                        result.extend(else_stmts.iter().cloned());
+                    let taken: &'a [Stmt<'a>] =
+                        if *val { then_block } else { else_block.unwrap_or(&[]) };
+                    // A binding of the taken block must not leave its scope and
+                    // shadow a variable the following statements use.
+                    let shadows = taken.iter().any(|s| match s {
+                        Stmt::Let { var, .. } => rest
+                            .as_slice()
+                            .iter()
+                            .any(|later| super::defunctionalize::stmt_mentions(later, *var)),
+                        _ => false,
+                    });
+                    if shadows {
+                        result.push(Stmt::If {
+                            cond: expr_arena.alloc(Expr::Literal(Literal::Boolean(true))),
+                            then_block: taken,
+                            else_block: None,
+                        });
+                    } else {
+                        result.extend(taken.iter().cloned());
                     }
                 } else {
                     let then_dce = dce_block(then_block, stmt_arena, expr_arena);
-- 
2.43.0


From 2540b8a3f09b85691b4c19d4272b3670a379bd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:33:48 +0000
Subject: [PATCH 24/45] fix: hoist and peel loops only when the result cannot
 change

Peeling assumed every counter starts at 0 and moved a Break out of its loop.
Hoisting evaluated failing expressions of loops that run zero times.
---
 .../logicaffeine_compile/src/optimize/licm.rs | 120 +++++++++++++-----
 1 file changed, 90 insertions(+), 30 deletions(-)

diff --git a/crates/logicaffeine_compile/src/optimize/licm.rs b/crates/logicaffeine_compile/src/optimize/licm.rs
index 43783eb..def3af3 100644
--- a/crates/logicaffeine_compile/src/optimize/licm.rs
+++ b/crates/logicaffeine_compile/src/optimize/licm.rs
@@ -7,7 +7,7 @@
 use std::collections::HashSet;
 
 use crate::arena::Arena;
-use crate::ast::stmt::{BinaryOpKind, Block, Expr, Stmt};
+use crate::ast::stmt::{BinaryOpKind, Block, Expr, Literal, Stmt};
 use crate::intern::{Interner, Symbol};
 
 /// Collect all symbols written in a block of statements (recursively).
@@ -120,6 +120,40 @@ fn is_worth_hoisting(expr: &Expr) -> bool {
     )
 }
 
+/// Evaluating `expr` cannot stop the program — the loop it is hoisted out of may
+/// run zero times.
+fn cannot_fail(expr: &Expr) -> bool {
+    match expr {
+        Expr::Literal(_) | Expr::Identifier(_) | Expr::OptionNone => true,
+        Expr::BinaryOp { op, left, right } => {
+            let divides = matches!(
+                op,
+                BinaryOpKind::Divide
+                    | BinaryOpKind::ExactDivide
+                    | BinaryOpKind::FloorDivide
+                    | BinaryOpKind::Modulo
+            );
+            // A bit operation stops the program on an integer beyond 64 bits.
+            let bitwise = matches!(
+                op,
+                BinaryOpKind::BitAnd
+                    | BinaryOpKind::BitOr
+                    | BinaryOpKind::BitXor
+                    | BinaryOpKind::Shl
+                    | BinaryOpKind::Shr
+            );
+            !bitwise
+                && (!divides || matches!(right, Expr::Literal(Literal::Number(n)) if *n != 0))
+                && cannot_fail(left)
+                && cannot_fail(right)
+        }
+        Expr::Not { operand } => cannot_fail(operand),
+        Expr::Length { collection } => cannot_fail(collection),
+        Expr::Contains { collection, value } => cannot_fail(collection) && cannot_fail(value),
+        _ => false,
+    }
+}
+
 /// True when evaluating `expr` has NO side effects and cannot panic on its own
 /// — so it is safe to evaluate it an EXTRA time (the guarded-hoist duplicates
 /// the loop condition). Identifiers, literals, and arithmetic/relational/logical
@@ -510,33 +544,53 @@ fn extract_eq_boundary(expr: &Expr) -> Option<(Symbol, i64)> {
     }
 }
 
-/// Find the start value of a counter variable from the enclosing context.
-/// Looks for the pattern: counter starts at some value based on the While condition.
-/// For `While i < n` with `i` starting at 0, the start value is 0.
-fn find_counter_start(counter: Symbol, body: &[Stmt]) -> Option<i64> {
-    // Check if the counter is incremented in the body (Set counter to counter + 1)
-    for stmt in body {
-        if let Stmt::Set { target, value } = stmt {
-            if *target == counter {
-                if let Expr::BinaryOp { op: crate::ast::stmt::BinaryOpKind::Add, left, right } = &**value {
-                    if let Expr::Identifier(sym) = &**left {
-                        if *sym == counter {
-                            if let Expr::Literal(crate::ast::stmt::Literal::Number(1)) = &**right {
-                                return Some(0);
-                            }
-                        }
-                    }
-                }
-            }
+/// Whether `counter` is 0 when the loop is entered — its last write among the
+/// statements before the loop — and only grows by one at the end of each round.
+fn counts_up_from_zero(counter: Symbol, preceding: &[Stmt], body: &[Stmt], if_idx: usize) -> bool {
+    let writes = |s: &Stmt| collect_loop_writes(std::slice::from_ref(s)).contains(&counter);
+    let starts_at_zero = matches!(
+        preceding.iter().rev().find(|s| writes(s)),
+        Some(
+            Stmt::Let { value: Expr::Literal(Literal::Number(0)), .. }
+                | Stmt::Set { value: Expr::Literal(Literal::Number(0)), .. }
+        )
+    );
+    let mut steps = body.iter().enumerate().filter(|(_, s)| writes(s));
+    let step_is_increment = match steps.next() {
+        Some((at, Stmt::Set { value, .. })) => {
+            at > if_idx
+                && matches!(
+                    value,
+                    Expr::BinaryOp {
+                        op: BinaryOpKind::Add,
+                        left: Expr::Identifier(sym),
+                        right: Expr::Literal(Literal::Number(1)),
+                    } if *sym == counter
+                )
         }
-    }
-    None
+        _ => false,
+    };
+    starts_at_zero && step_is_increment && steps.next().is_none()
+}
+
+/// Whether a `Break` in `block` would leave the loop `block` is the body of.
+fn breaks_out(block: &[Stmt]) -> bool {
+    block.iter().any(|s| match s {
+        Stmt::Break => true,
+        Stmt::If { then_block, else_block, .. } => {
+            breaks_out(then_block) || else_block.map_or(false, |b| breaks_out(b))
+        }
+        Stmt::Inspect { arms, .. } => arms.iter().any(|arm| breaks_out(arm.body)),
+        Stmt::Zone { body, .. } => breaks_out(body),
+        _ => false,
+    })
 }
 
 /// Try to peel the first iteration of a While loop.
 /// Detects `If counter == start: ... Otherwise: ...` in the body and extracts
 /// the first iteration, simplifying the remaining loop body.
 fn try_peel<'a>(
+    preceding: &[Stmt<'a>],
     body: &'a [Stmt<'a>],
     while_cond: &'a Expr<'a>,
     decreasing: Option<&'a Expr<'a>>,
@@ -561,9 +615,12 @@ fn try_peel<'a>(
 
     let (counter_sym, boundary_value) = extract_eq_boundary(if_cond)?;
 
-    // Only peel first iteration (boundary == 0 or start value)
-    let start_value = find_counter_start(counter_sym, body)?;
-    if boundary_value != start_value {
+    // Only peel first iteration (the counter starts at the boundary, 0), and
+    // only when no `Break` would be left outside the loop it belongs to.
+    if boundary_value != 0
+        || !counts_up_from_zero(counter_sym, preceding, body, if_idx)
+        || breaks_out(body)
+    {
         return None;
     }
 
@@ -644,7 +701,7 @@ fn try_unswitch<'a>(
             effective_writes.insert(*var);
         }
     }
-    if !is_loop_invariant(if_cond, &effective_writes) {
+    if !is_loop_invariant(if_cond, &effective_writes) || !cannot_fail(if_cond) {
         return None;
     }
 
@@ -732,7 +789,7 @@ fn licm_stmts_with<'a>(
                 }
 
                 // Loop peeling: extract first iteration when body has If counter==start
-                if let Some(peeled) = try_peel(body, cond, decreasing, expr_arena, stmt_arena, interner, hoist_indexed_loads) {
+                if let Some(peeled) = try_peel(&result, body, cond, decreasing, expr_arena, stmt_arena, interner, hoist_indexed_loads) {
                     result.extend(peeled);
                     continue;
                 }
@@ -742,7 +799,7 @@ fn licm_stmts_with<'a>(
 
                 for s in body.iter().cloned() {
                     if let Stmt::Let { var: _, ty: _, value, mutable: false } = &s {
-                        if is_loop_invariant(value, &loop_writes) && is_worth_hoisting(value) {
+                        if is_loop_invariant(value, &loop_writes) && is_worth_hoisting(value) && cannot_fail(value) {
                             hoisted.push(s);
                             continue;
                         }
@@ -783,15 +840,18 @@ fn licm_stmts_with<'a>(
                 let mut loop_writes = collect_loop_writes(body);
                 // The pattern variable varies each iteration — expressions
                 // reading it are NOT loop-invariant.
-                if let crate::ast::stmt::Pattern::Identifier(sym) = &pattern {
-                    loop_writes.insert(*sym);
+                match &pattern {
+                    crate::ast::stmt::Pattern::Identifier(sym) => {
+                        loop_writes.insert(*sym);
+                    }
+                    crate::ast::stmt::Pattern::Tuple(syms) => loop_writes.extend(syms.iter().copied()),
                 }
                 let mut hoisted = Vec::new();
                 let mut remaining = Vec::new();
 
                 for s in body.iter().cloned() {
                     if let Stmt::Let { var: _, ty: _, value, mutable: false } = &s {
-                        if is_loop_invariant(value, &loop_writes) && is_worth_hoisting(value) {
+                        if is_loop_invariant(value, &loop_writes) && is_worth_hoisting(value) && cannot_fail(value) {
                             hoisted.push(s);
                             continue;
                         }
-- 
2.43.0


From fae210b53c8ca10c3ada042ba26f768fac9a3c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:33:48 +0000
Subject: [PATCH 25/45] fix: stop propagating a constant past a Let of the same
 name

---
 crates/logicaffeine_compile/src/optimize/propagate.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/logicaffeine_compile/src/optimize/propagate.rs b/crates/logicaffeine_compile/src/optimize/propagate.rs
index b78adc9..3eb92c8 100644
--- a/crates/logicaffeine_compile/src/optimize/propagate.rs
+++ b/crates/logicaffeine_compile/src/optimize/propagate.rs
@@ -70,6 +70,8 @@ fn propagate_stmt<'a>(
             let propagated = subst_and_fold(value, env, expr_arena, stmt_arena, interner);
             if !mutable && !mutated.contains(&var) && is_propagatable_literal(propagated) {
                 env.insert(var, propagated);
+            } else {
+                env.remove(&var);
             }
             Stmt::Let { var, ty, value: propagated, mutable }
         }
-- 
2.43.0


From 93bb321ec31f5bacfbe1c0760eaa5b9165dba640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:33:48 +0000
Subject: [PATCH 26/45] fix: apply float identities only next to a float

---
 .../logicaffeine_compile/src/optimize/fold.rs | 22 +++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/crates/logicaffeine_compile/src/optimize/fold.rs b/crates/logicaffeine_compile/src/optimize/fold.rs
index 2bafce5..b61eebe 100644
--- a/crates/logicaffeine_compile/src/optimize/fold.rs
+++ b/crates/logicaffeine_compile/src/optimize/fold.rs
@@ -587,6 +587,20 @@ fn is_int_one(e: &Expr) -> bool {
     matches!(e, Expr::Literal(Literal::Number(1)))
 }
 
+/// Whether `e` is certainly a float. Arithmetic with a float turns an integer
+/// into one, so a float identity may only drop the literal next to a float.
+fn is_certain_float(e: &Expr) -> bool {
+    match e {
+        Expr::Literal(Literal::Float(_)) => true,
+        Expr::BinaryOp {
+            op: BinaryOpKind::Add | BinaryOpKind::Subtract | BinaryOpKind::Multiply | BinaryOpKind::Divide,
+            left,
+            right,
+        } => is_certain_float(left) || is_certain_float(right),
+        _ => false,
+    }
+}
+
 fn is_float_zero(e: &Expr) -> bool {
     matches!(e, Expr::Literal(Literal::Float(v)) if *v == 0.0)
 }
@@ -621,7 +635,7 @@ fn try_simplify_algebraic<'a>(
         }
         // x - 0 = x
         BinaryOpKind::Subtract => {
-            if is_int_zero(right) || is_float_zero(right) { return Some(left); }
+            if is_int_zero(right) || (is_float_zero(right) && is_certain_float(left)) { return Some(left); }
             None
         }
         // x * 1 = x, 1 * x = x (multiplying by one is the IEEE identity, any type); x * 0 = 0, 0 * x = 0
@@ -634,15 +648,15 @@ fn try_simplify_algebraic<'a>(
         // to 2^64-2, but i64::MAX << 1 wraps to -2). Like `x / 2^k → shift`, it
         // belongs in the BACKEND, gated on the Oracle proving the product fits i64.
         BinaryOpKind::Multiply => {
-            if is_int_one(right) || is_float_one(right) { return Some(left); }
-            if is_int_one(left) || is_float_one(left) { return Some(right); }
+            if is_int_one(right) || (is_float_one(right) && is_certain_float(left)) { return Some(left); }
+            if is_int_one(left) || (is_float_one(left) && is_certain_float(right)) { return Some(right); }
             if is_int_zero(right) && expr_is_total(left) { return Some(right); }
             if is_int_zero(left) && expr_is_total(right) { return Some(left); }
             None
         }
         // x / 1 = x (int and float)
         BinaryOpKind::Divide => {
-            if is_int_one(right) || is_float_one(right) { return Some(left); }
+            if is_int_one(right) || (is_float_one(right) && is_certain_float(left)) { return Some(left); }
             // NOTE: `x / 2^k → shift` strength reduction belongs in the BACKEND
             // (post-Oracle JIT/codegen lowering), NOT here. At the fold stage it
             // runs before the Oracle's bounds analysis (A1 modulo + A2 element
-- 
2.43.0


From 26141fe652a2ad156d6b1a3dfeb53daca53719a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:33:48 +0000
Subject: [PATCH 27/45] fix: drop shared subexpressions when the variable
 holding them changes

---
 .../logicaffeine_compile/src/optimize/gvn.rs  | 74 +++++++++----------
 1 file changed, 33 insertions(+), 41 deletions(-)

diff --git a/crates/logicaffeine_compile/src/optimize/gvn.rs b/crates/logicaffeine_compile/src/optimize/gvn.rs
index 5eb13f5..4764a30 100644
--- a/crates/logicaffeine_compile/src/optimize/gvn.rs
+++ b/crates/logicaffeine_compile/src/optimize/gvn.rs
@@ -7,7 +7,7 @@
 use std::collections::{HashMap, HashSet};
 
 use crate::arena::Arena;
-use crate::ast::stmt::{BinaryOpKind, Expr, Literal, Stmt};
+use crate::ast::stmt::{BinaryOpKind, Expr, Literal, Pattern, Stmt};
 use crate::intern::{Interner, Symbol};
 
 /// Structural key for expressions, used for equality comparison in CSE.
@@ -118,8 +118,9 @@ impl CseState {
         self.cache.insert(key, sym);
     }
 
-    /// Invalidate all cache entries that reference the given symbol.
+    /// Invalidate all cache entries that reference the given symbol or are held in it.
     fn invalidate(&mut self, sym: Symbol) {
+        self.cache.retain(|_, held_in| *held_in != sym);
         if let Some(keys) = self.deps.remove(&sym) {
             for key in keys {
                 self.cache.remove(&key);
@@ -127,6 +128,18 @@ impl CseState {
         }
     }
 
+    /// `var` now names the value of `value`: whatever it named before is gone.
+    fn bind(&mut self, var: Symbol, value: &Expr) {
+        self.invalidate(var);
+        if let Some(key) = compute_key(value) {
+            let mut syms = HashSet::new();
+            collect_key_symbols(&key, &mut syms);
+            if is_non_trivial(value) && !syms.contains(&var) {
+                self.insert(key, var);
+            }
+        }
+    }
+
     /// Look up an expression key in the cache.
     fn lookup(&self, key: &ExprKey) -> Option<Symbol> {
         self.cache.get(key).copied()
@@ -302,21 +315,13 @@ fn cse_block<'a>(
                     );
                     result.extend(hoisted);
                     // Add the whole expression to cross-statement cache
-                    if let Some(key) = compute_key(new_value) {
-                        if is_non_trivial(new_value) {
-                            state.insert(key, var);
-                        }
-                    }
+                    state.bind(var, new_value);
                     result.push(Stmt::Let { var, ty, value: new_value, mutable });
                 } else {
                     // Simple cross-statement check
                     let new_value = cse_expr_cross_stmt(value, state, expr_arena);
                     // Add to cache
-                    if let Some(key) = compute_key(value) {
-                        if is_non_trivial(value) {
-                            state.insert(key, var);
-                        }
-                    }
+                    state.bind(var, value);
                     result.push(Stmt::Let { var, ty, value: new_value, mutable });
                 }
             }
@@ -334,6 +339,9 @@ fn cse_block<'a>(
                 if let Expr::Identifier(sym) = collection {
                     state.invalidate(*sym);
                 }
+                if let Some(var) = into {
+                    state.invalidate(var);
+                }
                 result.push(Stmt::Pop { collection, into });
             }
             Stmt::Add { value, collection } => {
@@ -393,6 +401,8 @@ fn cse_block<'a>(
                 let saved_cache = state.cache.clone();
                 let saved_deps = state.deps.clone();
 
+                // A later round starts from what the body wrote in the previous one.
+                invalidate_block_writes(body, state);
                 let new_body = cse_block(body.to_vec(), state, expr_arena, stmt_arena, interner);
                 let new_body_block: Block = stmt_arena.alloc_slice(new_body);
 
@@ -407,6 +417,11 @@ fn cse_block<'a>(
                 let saved_cache = state.cache.clone();
                 let saved_deps = state.deps.clone();
 
+                invalidate_block_writes(body, state);
+                match &pattern {
+                    Pattern::Identifier(sym) => state.invalidate(*sym),
+                    Pattern::Tuple(syms) => syms.iter().for_each(|sym| state.invalidate(*sym)),
+                }
                 let new_body = cse_block(body.to_vec(), state, expr_arena, stmt_arena, interner);
                 let new_body_block: Block = stmt_arena.alloc_slice(new_body);
 
@@ -429,7 +444,10 @@ fn cse_block<'a>(
                 });
             }
             // All other statements pass through unchanged
-            other => result.push(other),
+            other => {
+                invalidate_block_writes(std::slice::from_ref(&other), state);
+                result.push(other);
+            }
         }
     }
 
@@ -438,34 +456,8 @@ fn cse_block<'a>(
 
 /// Scan a block for all write targets and invalidate them in the CSE state.
 fn invalidate_block_writes(stmts: &[Stmt], state: &mut CseState) {
-    for stmt in stmts {
-        match stmt {
-            Stmt::Set { target, .. } => state.invalidate(*target),
-            Stmt::Push { collection, .. } | Stmt::Pop { collection, .. }
-            | Stmt::Add { collection, .. } | Stmt::Remove { collection, .. } => {
-                if let Expr::Identifier(sym) = collection {
-                    state.invalidate(*sym);
-                }
-            }
-            Stmt::SetIndex { collection, .. } | Stmt::SetField { object: collection, .. } => {
-                if let Expr::Identifier(sym) = collection {
-                    state.invalidate(*sym);
-                }
-            }
-            Stmt::If { then_block, else_block, .. } => {
-                invalidate_block_writes(then_block, state);
-                if let Some(eb) = else_block {
-                    invalidate_block_writes(eb, state);
-                }
-            }
-            Stmt::While { body, .. } | Stmt::Repeat { body, .. } => {
-                invalidate_block_writes(body, state);
-            }
-            Stmt::Zone { body, .. } => {
-                invalidate_block_writes(body, state);
-            }
-            _ => {}
-        }
+    for sym in super::licm::collect_loop_writes(stmts) {
+        state.invalidate(sym);
     }
 }
 
-- 
2.43.0


From c2f7c251e34d7afa75bc43ac598ec71b27318100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:33:48 +0000
Subject: [PATCH 28/45] fix: keep call order when inlining a function whose
 argument acts

---
 crates/logicaffeine_compile/src/optimize/inline_leaf.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/logicaffeine_compile/src/optimize/inline_leaf.rs b/crates/logicaffeine_compile/src/optimize/inline_leaf.rs
index c90859d..fe9c5da 100644
--- a/crates/logicaffeine_compile/src/optimize/inline_leaf.rs
+++ b/crates/logicaffeine_compile/src/optimize/inline_leaf.rs
@@ -300,7 +300,9 @@ fn rewrite_expr<'a>(
                 .map(|a| rewrite_expr(a, cands, ea, sa, interner, counter, prelude))
                 .collect();
             if let Some(c) = cands.get(function) {
-                if c.params.len() == new_args.len() {
+                // Lifting an argument that acts would run it ahead of the calls
+                // to its left.
+                if c.params.len() == new_args.len() && new_args.iter().all(|a| expr_pure(a)) {
                     return expand(c, &new_args, ea, sa, interner, counter, prelude);
                 }
             }
-- 
2.43.0


From e6210271af89ff64aa224895489e15ca51e38400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:45:48 +0000
Subject: [PATCH 29/45] fix: keep a flattened block whose name is assigned
 later

---
 crates/logicaffeine_compile/src/optimize/dce.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/logicaffeine_compile/src/optimize/dce.rs b/crates/logicaffeine_compile/src/optimize/dce.rs
index 1aee26e..049f2d5 100644
--- a/crates/logicaffeine_compile/src/optimize/dce.rs
+++ b/crates/logicaffeine_compile/src/optimize/dce.rs
@@ -281,10 +281,11 @@ pub fn eliminate_dead_code<'a>(
                     // A binding of the taken block must not leave its scope and
                     // shadow a variable the following statements use.
                     let shadows = taken.iter().any(|s| match s {
-                        Stmt::Let { var, .. } => rest
-                            .as_slice()
-                            .iter()
-                            .any(|later| super::defunctionalize::stmt_mentions(later, *var)),
+                        Stmt::Let { var, .. } => rest.as_slice().iter().any(|later| {
+                            super::defunctionalize::stmt_mentions(later, *var)
+                                || super::abstract_interp::collect_mutations(std::slice::from_ref(later))
+                                    .contains(var)
+                        }),
                         _ => false,
                     });
                     if shadows {
-- 
2.43.0


From 99eb00670880c4baf20398f2503871b2a088e5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:15:27 +0000
Subject: [PATCH 30/45] fix: wasm modules count negative positions from the end
 and close loops left by Return

---
 .../src/vm/wasm/module.rs                     | 46 ++++++++++++++++---
 1 file changed, 40 insertions(+), 6 deletions(-)

diff --git a/crates/logicaffeine_compile/src/vm/wasm/module.rs b/crates/logicaffeine_compile/src/vm/wasm/module.rs
index 4930c8e..5510843 100644
--- a/crates/logicaffeine_compile/src/vm/wasm/module.rs
+++ b/crates/logicaffeine_compile/src/vm/wasm/module.rs
@@ -4194,11 +4194,13 @@ fn lower_op(pc: usize, plan: &Plan, ctx: &Ctx, blocks: &Blocks, k: usize, code:
             if plan.result.is_none() {
                 return Err(WasmLowerError::Unsupported("value return from a void function"));
             }
+            emit_drop_open_iters(code, plan, ctx, pc);
             local_get(code, src as u32);
             code.push(0x0F); // return
             Ok(Flow::Terminated)
         }
         Op::ReturnNothing => {
+            emit_drop_open_iters(code, plan, ctx, pc);
             match plan.result {
                 None => code.push(0x0F),    // return (void)
                 Some(_) => code.push(0x00), // unreachable (typed function: never returns nothing)
@@ -5419,6 +5421,38 @@ fn lower_list_pop(code: &mut Vec<u8>, kinds: &KindTable, dst: u16, list: u16) ->
     Ok(())
 }
 
+/// Drop the iterator frames of every `Repeat` loop still open at `pc` — a `Return` leaves the
+/// function past their `IterPop`s, and the caller's own frames sit right above them.
+fn emit_drop_open_iters(code: &mut Vec<u8>, plan: &Plan, ctx: &Ctx, pc: usize) {
+    let open = plan.ops[..pc].iter().filter(|op| matches!(op, Op::IterNext { exit, .. } if *exit > pc)).count();
+    if open > 0 {
+        global_get(code, ctx.iter_global);
+        i32_const(code, 12 * open as i32);
+        code.push(0x6A); // i32.add
+        global_set(code, ctx.iter_global);
+    }
+}
+
+/// Push the forward position `index` names in the sequence or text `col`: a negative `index` counts
+/// from the end (`-1` is the last), any other is itself.
+fn emit_position(code: &mut Vec<u8>, col: u32, index: u16) {
+    local_get(code, index as u32);
+    local_get(code, col);
+    i32_load(code, 0);
+    code.push(0xAD); // len → i64
+    code.push(0x42);
+    leb_i64(code, 1);
+    code.push(0x7C); // i64.add
+    code.push(0x42);
+    leb_i64(code, 0);
+    local_get(code, index as u32);
+    code.push(0x42);
+    leb_i64(code, 0);
+    code.push(0x53); // i64.lt_s
+    code.push(0x1B); // select: index < 0 ? len + 1 : 0
+    code.push(0x7C); // i64.add
+}
+
 /// Bounds-check a 1-based `index` into the Int sequence `collection` (trap on `index < 1` or
 /// `index > len`, as the standalone module has no VM to surface the error), then leave the
 /// element address `data_ptr + (index-1)*8` on the stack.
@@ -5433,11 +5467,11 @@ fn emit_seq_elem_addr(code: &mut Vec<u8>, kinds: &KindTable, collection: u16, in
     }
     let col = collection as u32;
     // trap if index < 1 || index > len
-    local_get(code, index as u32);
+    emit_position(code, col, index);
     code.push(0x42);
     leb_i64(code, 1);
     code.push(0x53); // i64.lt_s
-    local_get(code, index as u32);
+    emit_position(code, col, index);
     local_get(code, col);
     i32_load(code, 0);
     code.push(0xAD); // len → i64
@@ -5450,7 +5484,7 @@ fn emit_seq_elem_addr(code: &mut Vec<u8>, kinds: &KindTable, collection: u16, in
     // address = data_ptr + (index-1)*8
     local_get(code, col);
     i32_load(code, 8); // data_ptr
-    local_get(code, index as u32);
+    emit_position(code, col, index);
     code.push(0x42);
     leb_i64(code, 1);
     code.push(0x7D); // i64.sub
@@ -5512,11 +5546,11 @@ fn lower_text_index(code: &mut Vec<u8>, ctx: &Ctx, num_regs: u32, dst: u16, coll
     let (hdr, data) = (num_regs + 5, num_regs + 6);
     let col = collection as u32;
     // trap if index < 1 || index > byte_len
-    local_get(code, index as u32);
+    emit_position(code, col, index);
     code.push(0x42);
     leb_i64(code, 1);
     code.push(0x53); // i64.lt_s → index < 1
-    local_get(code, index as u32);
+    emit_position(code, col, index);
     local_get(code, col);
     i32_load(code, 0); // byte len
     code.push(0xAD); // i64.extend_i32_s
@@ -5535,7 +5569,7 @@ fn lower_text_index(code: &mut Vec<u8>, ctx: &Ctx, num_regs: u32, dst: u16, coll
     local_get(code, data); // store8 destination
     local_get(code, col);
     i32_load(code, 8); // text data_ptr
-    local_get(code, index as u32);
+    emit_position(code, col, index);
     code.push(0x42);
     leb_i64(code, 1);
     code.push(0x7D); // i64.sub → index - 1
-- 
2.43.0


From 1e84519e6c6016b04db5aef9aaedb4271e93c35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:15:27 +0000
Subject: [PATCH 31/45] fix: wasm float division by zero stops the program as
 in the interpreter

---
 .../logicaffeine_compile/src/vm/wasm/module.rs  | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/crates/logicaffeine_compile/src/vm/wasm/module.rs b/crates/logicaffeine_compile/src/vm/wasm/module.rs
index 5510843..9d72e6a 100644
--- a/crates/logicaffeine_compile/src/vm/wasm/module.rs
+++ b/crates/logicaffeine_compile/src/vm/wasm/module.rs
@@ -4232,6 +4232,19 @@ enum ArithOp {
     Mod,
 }
 
+/// Trap when a float divisor is zero, where the VM reports "Division by zero".
+fn emit_zero_divisor_trap(code: &mut Vec<u8>, rhs: u16, kind: Option<Kind>) -> R<()> {
+    push_as_f64(code, rhs, kind)?;
+    code.push(0x44); // f64.const 0
+    code.extend_from_slice(&0f64.to_le_bytes());
+    code.push(0x61); // f64.eq
+    code.push(0x04);
+    code.push(0x40); // if
+    code.push(0x00); // unreachable
+    code.push(0x0B); // end
+    Ok(())
+}
+
 /// Lower a binary arithmetic op, dispatching on the result kind: checked `i64` for `Int`
 /// (traps on signed overflow, matching the VM's exact-int → BigInt contract), native `f64` for
 /// `Float`.
@@ -4283,6 +4296,9 @@ fn lower_arith(code: &mut Vec<u8>, kinds: &KindTable, dst: u16, lhs: u16, rhs: u
             };
             // Promote an `Int` operand to `f64` (matching the tree-walker's mixed-expression
             // promotion), so `3 + 1.5` etc. compile instead of emitting an `f64` op on an `i64`.
+            if matches!(op, ArithOp::Div) {
+                emit_zero_divisor_trap(code, rhs, kinds.get(rhs as usize))?;
+            }
             push_as_f64(code, lhs, kinds.get(lhs as usize))?;
             push_as_f64(code, rhs, kinds.get(rhs as usize))?;
             code.push(opcode);
@@ -5132,6 +5148,7 @@ fn lower_floordiv_regs(code: &mut Vec<u8>, kinds: &KindTable, num_regs: u32, dst
         Some(Kind::Word32) => arith(code, 0x6E, dst, lhs, rhs), // i32.div_u
         Some(Kind::Word64) => arith(code, 0x80, dst, lhs, rhs), // i64.div_u
         Some(Kind::Float) => {
+            emit_zero_divisor_trap(code, rhs, kinds.get(rhs as usize))?;
             push_as_f64(code, lhs, kinds.get(lhs as usize))?;
             push_as_f64(code, rhs, kinds.get(rhs as usize))?;
             code.push(0xA3); // f64.div
-- 
2.43.0


From ea5bff894a3caac1d3fb98f0e9751c093f502333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:15:27 +0000
Subject: [PATCH 32/45] fix: wasm in-place addition and subtraction detect
 64-bit overflow

---
 .../src/vm/wasm/encode.rs                     | 27 +++++++++----------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/crates/logicaffeine_compile/src/vm/wasm/encode.rs b/crates/logicaffeine_compile/src/vm/wasm/encode.rs
index e628cdb..90616d5 100644
--- a/crates/logicaffeine_compile/src/vm/wasm/encode.rs
+++ b/crates/logicaffeine_compile/src/vm/wasm/encode.rs
@@ -150,25 +150,22 @@ pub(crate) fn compare(out: &mut Vec<u8>, cmp_opcode: u8, dst: Reg, lhs: Reg, rhs
 /// task falls back to the bytecode VM, which promotes correctly — never a silent wrap. Signed
 /// overflow test: add ⟺ `(lhs ^ dst) & (rhs ^ dst) < 0`; sub ⟺ `(lhs ^ rhs) & (lhs ^ dst) < 0`.
 pub(crate) fn emit_checked_addsub(out: &mut Vec<u8>, is_sub: bool, dst: Reg, lhs: Reg, rhs: Reg) {
+    // The check runs before `dst` is written: an in-place update (`dst == lhs`) overwrites an operand.
+    let result = |out: &mut Vec<u8>| {
+        local_get(out, lhs as u32);
+        local_get(out, rhs as u32);
+        out.push(if is_sub { 0x7D } else { 0x7C }); // i64.sub / i64.add
+    };
     local_get(out, lhs as u32);
+    result(out);
+    out.push(0x85); // (lhs ^ result)
     local_get(out, rhs as u32);
-    out.push(if is_sub { 0x7D } else { 0x7C }); // i64.sub / i64.add
-    local_set(out, dst as u32);
     if is_sub {
-        local_get(out, lhs as u32);
-        local_get(out, rhs as u32);
-        out.push(0x85); // (lhs ^ rhs)
-        local_get(out, lhs as u32);
-        local_get(out, dst as u32);
-        out.push(0x85); // (lhs ^ dst)
+        local_get(out, lhs as u32); // (rhs ^ lhs)
     } else {
-        local_get(out, lhs as u32);
-        local_get(out, dst as u32);
-        out.push(0x85); // (lhs ^ dst)
-        local_get(out, rhs as u32);
-        local_get(out, dst as u32);
-        out.push(0x85); // (rhs ^ dst)
+        result(out); // (rhs ^ result)
     }
+    out.push(0x85);
     out.push(0x83); // i64.and
     out.push(0x42);
     out.push(0x00); // i64.const 0
@@ -177,6 +174,8 @@ pub(crate) fn emit_checked_addsub(out: &mut Vec<u8>, is_sub: bool, dst: Reg, lhs
     out.push(0x40); // if (void)
     out.push(0x00); // unreachable (overflow → trap → VM fallback)
     out.push(0x0B); // end
+    result(out);
+    local_set(out, dst as u32);
 }
 
 /// Emit a CHECKED `mul`: wrapping i64 product, then trap on signed overflow. Overflow ⟺
-- 
2.43.0


From 6113fbb838353db8e51a75180ed67a8e2932321c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:15:38 +0000
Subject: [PATCH 33/45] fix: wasm loops over a never-filled list load elements
 at the loop variable's width

---
 crates/logicaffeine_compile/src/vm/wasm/module.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/logicaffeine_compile/src/vm/wasm/module.rs b/crates/logicaffeine_compile/src/vm/wasm/module.rs
index 9d72e6a..a7a2fb1 100644
--- a/crates/logicaffeine_compile/src/vm/wasm/module.rs
+++ b/crates/logicaffeine_compile/src/vm/wasm/module.rs
@@ -9597,9 +9597,9 @@ fn lower_iter_prepare(code: &mut Vec<u8>, kinds: &KindTable, ctx: &Ctx, num_regs
 fn lower_iter_next(code: &mut Vec<u8>, kinds: &KindTable, ctx: &Ctx, blocks: &Blocks, k: usize, num_regs: u32, dst: u16, exit: usize, pc: usize) {
     // The loop variable's kind IS the element kind; load it at its width (`f64`/`i64`, or `i32` for
     // a heap handle like Text/Struct/Enum).
-    let elem_load: fn(&mut Vec<u8>, u32) = match kinds.get(dst as usize).map(Kind::wasm_valtype) {
-        Some(F64) => f64_load,
-        Some(I64) => i64_load,
+    let elem_load: fn(&mut Vec<u8>, u32) = match kinds.valtype(dst as usize) {
+        F64 => f64_load,
+        I64 => i64_load,
         _ => i32_load,
     };
     let ig = ctx.iter_global;
-- 
2.43.0


From 1cb9c34306a32ddedc40388d017563156984c1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:15:39 +0000
Subject: [PATCH 34/45] fix: wasm functions with 64 or more blocks reach all of
 them

---
 crates/logicaffeine_compile/src/vm/wasm/encode.rs |  6 ++----
 crates/logicaffeine_compile/src/vm/wasm/func.rs   |  6 ++----
 crates/logicaffeine_compile/src/vm/wasm/module.rs | 12 ++++--------
 3 files changed, 8 insertions(+), 16 deletions(-)

diff --git a/crates/logicaffeine_compile/src/vm/wasm/encode.rs b/crates/logicaffeine_compile/src/vm/wasm/encode.rs
index 90616d5..a7c987a 100644
--- a/crates/logicaffeine_compile/src/vm/wasm/encode.rs
+++ b/crates/logicaffeine_compile/src/vm/wasm/encode.rs
@@ -218,10 +218,8 @@ pub(crate) fn emit_cond_jump(
     loop_depth: u32,
 ) {
     // Stack for `select`: [target, fallthrough, selector] → selector!=0 ? target : fallthrough.
-    code.push(0x41); // i32.const target
-    leb_u32(code, target_block as u32);
-    code.push(0x41); // i32.const fallthrough
-    leb_u32(code, fallthrough_block as u32);
+    i32_const(code, target_block as i32);
+    i32_const(code, fallthrough_block as i32);
     local_get(code, cond as u32);
     if jump_when_false {
         code.push(0x50); // i64.eqz → i32 1 when cond is 0 (falsey) ⇒ pick target
diff --git a/crates/logicaffeine_compile/src/vm/wasm/func.rs b/crates/logicaffeine_compile/src/vm/wasm/func.rs
index 5aef6d1..714388c 100644
--- a/crates/logicaffeine_compile/src/vm/wasm/func.rs
+++ b/crates/logicaffeine_compile/src/vm/wasm/func.rs
@@ -142,8 +142,7 @@ pub fn compile_region_to_wasm(
                 Op::Eq { dst, lhs, rhs } => compare(&mut code, 0x51, dst, lhs, rhs), // i64.eq
                 Op::NotEq { dst, lhs, rhs } => compare(&mut code, 0x52, dst, lhs, rhs), // i64.ne
                 Op::Jump { target } => {
-                    code.push(0x41); // i32.const next-block
-                    leb_u32(&mut code, blocks.block_of(target) as u32);
+                    i32_const(&mut code, blocks.block_of(target) as i32);
                     local_set(&mut code, pc_local);
                     code.push(0x0C); // br $loop
                     leb_u32(&mut code, blocks.br_loop(k));
@@ -181,8 +180,7 @@ pub fn compile_region_to_wasm(
         if !terminated {
             // Fell off the block end into the next block: set next, re-dispatch.
             let next = blocks.block_of(end);
-            code.push(0x41);
-            leb_u32(&mut code, next as u32);
+            i32_const(&mut code, next as i32);
             local_set(&mut code, pc_local);
             code.push(0x0C);
             leb_u32(&mut code, blocks.br_loop(k));
diff --git a/crates/logicaffeine_compile/src/vm/wasm/module.rs b/crates/logicaffeine_compile/src/vm/wasm/module.rs
index a7a2fb1..6629225 100644
--- a/crates/logicaffeine_compile/src/vm/wasm/module.rs
+++ b/crates/logicaffeine_compile/src/vm/wasm/module.rs
@@ -2562,8 +2562,7 @@ fn emit_body(plan: &Plan, _ctx: &Ctx) -> R<Vec<u8>> {
                 }
             } else {
                 let next = blocks.block_of(end);
-                code.push(0x41); // i32.const next-block
-                leb_u32(&mut code, next as u32);
+                i32_const(&mut code, next as i32);
                 local_set(&mut code, pc_local);
                 code.push(0x0C); // br $loop
                 leb_u32(&mut code, blocks.br_loop(k));
@@ -2941,8 +2940,7 @@ fn lower_op(pc: usize, plan: &Plan, ctx: &Ctx, blocks: &Blocks, k: usize, code:
             }
         }
         Op::Jump { target } => {
-            code.push(0x41);
-            leb_u32(code, blocks.block_of(target) as u32);
+            i32_const(code, blocks.block_of(target) as i32);
             local_set(code, plan.num_regs);
             code.push(0x0C);
             leb_u32(code, blocks.br_loop(k));
@@ -9632,13 +9630,11 @@ fn lower_iter_next(code: &mut Vec<u8>, kinds: &KindTable, ctx: &Ctx, blocks: &Bl
     code.push(0x6A); // i32.add
     i32_store(code, 4);
     // next block = fallthrough (the loop body)
-    code.push(0x41); // i32.const
-    leb_u32(code, fallthrough);
+    i32_const(code, fallthrough as i32);
     local_set(code, pc_local);
     code.push(0x05); // else
     // exhausted: next block = exit (the IterPop)
-    code.push(0x41); // i32.const
-    leb_u32(code, exit_block);
+    i32_const(code, exit_block as i32);
     local_set(code, pc_local);
     code.push(0x0B); // end if
     code.push(0x0C); // br $loop
-- 
2.43.0


From 0edee16da9856914128d2f3df2f9bb0f0eefbfa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:35:48 +0000
Subject: [PATCH 35/45] fix: keep VFS paths with inner parent components under
 the base directory

---
 crates/logicaffeine_system/src/fs/mod.rs   | 20 +++++++++++++++++---
 crates/logicaffeine_system/src/fs/uring.rs |  3 +--
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/crates/logicaffeine_system/src/fs/mod.rs b/crates/logicaffeine_system/src/fs/mod.rs
index 04fcd46..93a4686 100644
--- a/crates/logicaffeine_system/src/fs/mod.rs
+++ b/crates/logicaffeine_system/src/fs/mod.rs
@@ -197,12 +197,26 @@ impl NativeVfs {
 
     /// Resolve a virtual path to an absolute filesystem path.
     fn resolve(&self, path: &str) -> PathBuf {
-        // Security: Prevent path traversal attacks
-        let clean = path.trim_start_matches('/').trim_start_matches("../");
-        self.base_dir.join(clean)
+        contained(&self.base_dir, path)
     }
 }
 
+/// Security: join `path` under `base`, dropping every component that would climb above `base`.
+#[cfg(not(target_arch = "wasm32"))]
+fn contained(base: &std::path::Path, path: &str) -> PathBuf {
+    let mut clean = PathBuf::new();
+    for part in std::path::Path::new(path).components() {
+        match part {
+            std::path::Component::Normal(name) => clean.push(name),
+            std::path::Component::ParentDir => {
+                clean.pop();
+            }
+            _ => {}
+        }
+    }
+    base.join(clean)
+}
+
 #[cfg(not(target_arch = "wasm32"))]
 #[async_trait]
 impl Vfs for NativeVfs {
diff --git a/crates/logicaffeine_system/src/fs/uring.rs b/crates/logicaffeine_system/src/fs/uring.rs
index ff7f69f..ea41922 100644
--- a/crates/logicaffeine_system/src/fs/uring.rs
+++ b/crates/logicaffeine_system/src/fs/uring.rs
@@ -70,8 +70,7 @@ impl UringVfs {
     }
 
     fn resolve(&self, path: &str) -> PathBuf {
-        let clean = path.trim_start_matches('/').trim_start_matches("../");
-        self.base_dir.join(clean)
+        super::contained(&self.base_dir, path)
     }
 
     fn send(&self, cmd: UringCommand) -> VfsResult<()> {
-- 
2.43.0


From b51f15aaf5a24c7fa09427e462e27ff4246ba73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:35:48 +0000
Subject: [PATCH 36/45] fix: sync the replacement file before renaming it into
 place

---
 crates/logicaffeine_system/src/fs/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/logicaffeine_system/src/fs/mod.rs b/crates/logicaffeine_system/src/fs/mod.rs
index 93a4686..01f8ddc 100644
--- a/crates/logicaffeine_system/src/fs/mod.rs
+++ b/crates/logicaffeine_system/src/fs/mod.rs
@@ -231,6 +231,8 @@ impl Vfs for NativeVfs {
     }
 
     async fn write(&self, path: &str, contents: &[u8]) -> VfsResult<()> {
+        use tokio::io::AsyncWriteExt;
+
         let full_path = self.resolve(path);
 
         // Ensure parent directory exists
@@ -240,7 +242,10 @@ impl Vfs for NativeVfs {
 
         // Atomic write: write to temp file, then rename
         let temp_path = full_path.with_extension("tmp");
-        tokio::fs::write(&temp_path, contents).await?;
+        let mut file = tokio::fs::File::create(&temp_path).await?;
+        file.write_all(contents).await?;
+        file.sync_all().await?;
+        drop(file);
         tokio::fs::rename(&temp_path, &full_path).await?;
 
         Ok(())
-- 
2.43.0


From 896731fd6be23c0baa2daede4d75d6c68a9c9ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:36:01 +0000
Subject: [PATCH 37/45] fix: give every replacement file its own temporary name

---
 crates/logicaffeine_system/src/fs/mod.rs          | 12 +++++++++++-
 crates/logicaffeine_system/src/fs/uring_worker.rs |  2 +-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/logicaffeine_system/src/fs/mod.rs b/crates/logicaffeine_system/src/fs/mod.rs
index 01f8ddc..3bd9dc1 100644
--- a/crates/logicaffeine_system/src/fs/mod.rs
+++ b/crates/logicaffeine_system/src/fs/mod.rs
@@ -201,6 +201,16 @@ impl NativeVfs {
     }
 }
 
+/// A name next to `path` that no other write, and no file of the user's, is using.
+#[cfg(not(target_arch = "wasm32"))]
+fn temp_sibling(path: &std::path::Path) -> PathBuf {
+    static NEXT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
+    let n = NEXT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
+    let mut name = path.file_name().unwrap_or_default().to_os_string();
+    name.push(format!(".{}-{n}.tmp", std::process::id()));
+    path.with_file_name(name)
+}
+
 /// Security: join `path` under `base`, dropping every component that would climb above `base`.
 #[cfg(not(target_arch = "wasm32"))]
 fn contained(base: &std::path::Path, path: &str) -> PathBuf {
@@ -241,7 +251,7 @@ impl Vfs for NativeVfs {
         }
 
         // Atomic write: write to temp file, then rename
-        let temp_path = full_path.with_extension("tmp");
+        let temp_path = temp_sibling(&full_path);
         let mut file = tokio::fs::File::create(&temp_path).await?;
         file.write_all(contents).await?;
         file.sync_all().await?;
diff --git a/crates/logicaffeine_system/src/fs/uring_worker.rs b/crates/logicaffeine_system/src/fs/uring_worker.rs
index 0737b62..9dc2900 100644
--- a/crates/logicaffeine_system/src/fs/uring_worker.rs
+++ b/crates/logicaffeine_system/src/fs/uring_worker.rs
@@ -351,7 +351,7 @@ fn prepare_atomic_write(
         }
     }
 
-    let temp_path = dest_path.with_extension("tmp");
+    let temp_path = super::temp_sibling(&dest_path);
 
     let file = match OpenOptions::new()
         .write(true)
-- 
2.43.0


From bbf95d8a20b33a397a42fb8d68c9be38c14659c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:36:01 +0000
Subject: [PATCH 38/45] fix: drop a torn journal tail when mounting

---
 crates/logicaffeine_system/src/storage/mod.rs | 22 +++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/crates/logicaffeine_system/src/storage/mod.rs b/crates/logicaffeine_system/src/storage/mod.rs
index b2405e0..44774c4 100644
--- a/crates/logicaffeine_system/src/storage/mod.rs
+++ b/crates/logicaffeine_system/src/storage/mod.rs
@@ -120,13 +120,16 @@ where
 }
 
 /// Helper function to replay journal entries (shared between platforms).
-fn replay_journal<T>(data: &[u8]) -> Result<(T, u64), VfsError>
+///
+/// Also returns how many bytes of `data` hold whole entries; anything after them is a torn tail.
+fn replay_journal<T>(data: &[u8]) -> Result<(T, u64, usize), VfsError>
 where
     T: Merge + Serialize + DeserializeOwned + Clone + Default,
 {
     let mut state = T::default();
     let mut entry_count = 0u64;
     let mut pos = 0;
+    let mut whole = 0;
 
     while pos + JournalHeader::SIZE <= data.len() {
         let header_bytes: [u8; 8] = data[pos..pos + 8].try_into().unwrap();
@@ -157,10 +160,11 @@ where
         }
 
         pos = payload_end;
+        whole = pos;
         entry_count += 1;
     }
 
-    Ok((state, entry_count))
+    Ok((state, entry_count, whole))
 }
 
 /// Native implementation with Send bounds.
@@ -177,7 +181,12 @@ where
         pub async fn mount(vfs: Arc<dyn Vfs + Send + Sync>, path: &str) -> VfsResult<Self> {
         let (state, entry_count) = if vfs.exists(path).await.unwrap_or(false) {
             let data = vfs.read(path).await?;
-            replay_journal(&data)?
+            let (state, entry_count, whole) = replay_journal(&data)?;
+            if whole < data.len() {
+                // Drop the torn tail, or the next entry would be appended after it.
+                vfs.write(path, &data[..whole]).await?;
+            }
+            (state, entry_count)
         } else {
             (T::default(), 0)
         };
@@ -264,7 +273,12 @@ where
     pub async fn mount(vfs: Arc<dyn Vfs>, path: &str) -> VfsResult<Self> {
         let (state, entry_count) = if vfs.exists(path).await.unwrap_or(false) {
             let data = vfs.read(path).await?;
-            replay_journal(&data)?
+            let (state, entry_count, whole) = replay_journal(&data)?;
+            if whole < data.len() {
+                // Drop the torn tail, or the next entry would be appended after it.
+                vfs.write(path, &data[..whole]).await?;
+            }
+            (state, entry_count)
         } else {
             (T::default(), 0)
         };
-- 
2.43.0


From 986a546a314c1c4e2384013ebe64b71f704f2a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:36:01 +0000
Subject: [PATCH 39/45] fix: keep mutations out while the journal is being
 compacted

---
 crates/logicaffeine_system/src/storage/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/logicaffeine_system/src/storage/mod.rs b/crates/logicaffeine_system/src/storage/mod.rs
index 44774c4..1d973fe 100644
--- a/crates/logicaffeine_system/src/storage/mod.rs
+++ b/crates/logicaffeine_system/src/storage/mod.rs
@@ -230,9 +230,10 @@ where
 
     /// Compact the journal by writing a snapshot.
     pub async fn compact(&self) -> VfsResult<()> {
-        let state = self.inner.lock().await.clone();
+        // Held until the snapshot replaces the journal, so no entry lands in between.
+        let guard = self.inner.lock().await;
 
-        let op = JournalOp::<T>::Snapshot(state);
+        let op = JournalOp::<T>::Snapshot(guard.clone());
         let payload = bincode::serialize(&op)
             .map_err(|e| VfsError::SerializationError(e.to_string()))?;
 
@@ -322,9 +323,10 @@ where
 
     /// Compact the journal by writing a snapshot.
     pub async fn compact(&self) -> VfsResult<()> {
-        let state = self.inner.lock().await.clone();
+        // Held until the snapshot replaces the journal, so no entry lands in between.
+        let guard = self.inner.lock().await;
 
-        let op = JournalOp::<T>::Snapshot(state);
+        let op = JournalOp::<T>::Snapshot(guard.clone());
         let payload = bincode::serialize(&op)
             .map_err(|e| VfsError::SerializationError(e.to_string()))?;
 
-- 
2.43.0


From c317917a61516c55567c59d5e1eb74ef50a6a5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:37:51 +0000
Subject: [PATCH 40/45] fix: refuse to replace the VFS base directory with a
 file

---
 crates/logicaffeine_system/src/fs/mod.rs   | 11 +++++++++++
 crates/logicaffeine_system/src/fs/uring.rs |  1 +
 2 files changed, 12 insertions(+)

diff --git a/crates/logicaffeine_system/src/fs/mod.rs b/crates/logicaffeine_system/src/fs/mod.rs
index 3bd9dc1..3f016b4 100644
--- a/crates/logicaffeine_system/src/fs/mod.rs
+++ b/crates/logicaffeine_system/src/fs/mod.rs
@@ -211,6 +211,15 @@ fn temp_sibling(path: &std::path::Path) -> PathBuf {
     path.with_file_name(name)
 }
 
+/// The base directory itself cannot be replaced (its temporary file would be outside it).
+#[cfg(not(target_arch = "wasm32"))]
+fn refuse_root(base: &std::path::Path, path: &std::path::Path) -> VfsResult<()> {
+    if path == base {
+        return Err(VfsError::PermissionDenied("the base directory is not a file".to_string()));
+    }
+    Ok(())
+}
+
 /// Security: join `path` under `base`, dropping every component that would climb above `base`.
 #[cfg(not(target_arch = "wasm32"))]
 fn contained(base: &std::path::Path, path: &str) -> PathBuf {
@@ -250,6 +259,8 @@ impl Vfs for NativeVfs {
             tokio::fs::create_dir_all(parent).await?;
         }
 
+        refuse_root(&self.base_dir, &full_path)?;
+
         // Atomic write: write to temp file, then rename
         let temp_path = temp_sibling(&full_path);
         let mut file = tokio::fs::File::create(&temp_path).await?;
diff --git a/crates/logicaffeine_system/src/fs/uring.rs b/crates/logicaffeine_system/src/fs/uring.rs
index ea41922..1754a89 100644
--- a/crates/logicaffeine_system/src/fs/uring.rs
+++ b/crates/logicaffeine_system/src/fs/uring.rs
@@ -126,6 +126,7 @@ impl Vfs for UringVfs {
 
     async fn write(&self, path: &str, contents: &[u8]) -> VfsResult<()> {
         let full_path = self.resolve(path);
+        super::refuse_root(&self.base_dir, &full_path)?;
         let (tx, rx) = oneshot::channel();
         self.send(UringCommand::Write {
             path: full_path,
-- 
2.43.0


From a010bf572e7efa806a9904b7b22ecebd5412dfc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:37:51 +0000
Subject: [PATCH 41/45] fix: remove the temporary file when a replacement fails

---
 crates/logicaffeine_system/src/fs/mod.rs          |  5 ++++-
 crates/logicaffeine_system/src/fs/uring_worker.rs | 15 +++++++++++----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/crates/logicaffeine_system/src/fs/mod.rs b/crates/logicaffeine_system/src/fs/mod.rs
index 3f016b4..f4fc155 100644
--- a/crates/logicaffeine_system/src/fs/mod.rs
+++ b/crates/logicaffeine_system/src/fs/mod.rs
@@ -267,7 +267,10 @@ impl Vfs for NativeVfs {
         file.write_all(contents).await?;
         file.sync_all().await?;
         drop(file);
-        tokio::fs::rename(&temp_path, &full_path).await?;
+        if let Err(e) = tokio::fs::rename(&temp_path, &full_path).await {
+            let _ = tokio::fs::remove_file(&temp_path).await;
+            return Err(VfsError::from(e));
+        }
 
         Ok(())
     }
diff --git a/crates/logicaffeine_system/src/fs/uring_worker.rs b/crates/logicaffeine_system/src/fs/uring_worker.rs
index 9dc2900..cd63fa4 100644
--- a/crates/logicaffeine_system/src/fs/uring_worker.rs
+++ b/crates/logicaffeine_system/src/fs/uring_worker.rs
@@ -532,8 +532,7 @@ fn process_completions(
                     let _ = fs::remove_file(&temp_path);
                     let _ = tx.send(Err(cqe_error(result)));
                 } else {
-                    let _ =
-                        tx.send(fs::rename(&temp_path, &dest_path).map_err(VfsError::from));
+                    let _ = tx.send(rename_or_discard(&temp_path, &dest_path));
                 }
             }
 
@@ -638,7 +637,15 @@ fn fallback_atomic_write_and_close(
         return Err(VfsError::from(e));
     }
     drop(file); // close before rename
-    fs::rename(temp_path, dest_path).map_err(VfsError::from)
+    rename_or_discard(temp_path, dest_path)
+}
+
+/// Move a finished temporary file into place, or remove it when it cannot be moved.
+fn rename_or_discard(temp_path: &Path, dest_path: &Path) -> VfsResult<()> {
+    fs::rename(temp_path, dest_path).map_err(|e| {
+        let _ = fs::remove_file(temp_path);
+        VfsError::from(e)
+    })
 }
 
 fn fallback_append_and_close(fd: RawFd, data: &[u8]) -> VfsResult<()> {
@@ -664,7 +671,7 @@ fn fallback_fsync_rename_and_close(
         return Err(VfsError::from(e));
     }
     drop(file); // close before rename
-    fs::rename(temp_path, dest_path).map_err(VfsError::from)
+    rename_or_discard(temp_path, dest_path)
 }
 
 fn fallback_fsync_and_close(fd: RawFd) -> VfsResult<()> {
-- 
2.43.0


From 5287fd39a77f2cb6f453f5bc94aba60146c05b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:51:58 +0000
Subject: [PATCH 42/45] fix: decompression honours the receiver's byte limit

---
 .../src/concurrency/marshal.rs                | 27 ++++++++++++++-----
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/crates/logicaffeine_compile/src/concurrency/marshal.rs b/crates/logicaffeine_compile/src/concurrency/marshal.rs
index 888e503..13617ce 100644
--- a/crates/logicaffeine_compile/src/concurrency/marshal.rs
+++ b/crates/logicaffeine_compile/src/concurrency/marshal.rs
@@ -2968,12 +2968,26 @@ pub fn best_compressed_len(body: &[u8]) -> usize {
 fn decompress_body(codec: WireCompression, body: &[u8]) -> Option<Vec<u8>> {
     match codec {
         WireCompression::None => Some(body.to_vec()),
-        WireCompression::Deflate => miniz_oxide::inflate::decompress_to_vec(body).ok(),
-        WireCompression::Lz4 => lz4_flex::decompress_size_prepended(body).ok(),
+        WireCompression::Deflate => {
+            miniz_oxide::inflate::decompress_to_vec_with_limit(body, receive_limits().max_bytes).ok()
+        }
+        WireCompression::Lz4 => {
+            // The claimed size is allocated up front, so it must fit the budget first.
+            let claimed = u32::from_le_bytes(body.get(..4)?.try_into().ok()?) as usize;
+            if claimed > receive_limits().max_bytes {
+                return None;
+            }
+            lz4_flex::decompress_size_prepended(body).ok()
+        }
         WireCompression::Zstd => {
             #[cfg(not(target_arch = "wasm32"))]
             {
-                zstd::decode_all(body).ok()
+                use std::io::Read;
+                let limit = receive_limits().max_bytes;
+                let mut out = Vec::new();
+                let dec = zstd::Decoder::new(body).ok()?;
+                dec.take((limit as u64).saturating_add(1)).read_to_end(&mut out).ok()?;
+                (out.len() <= limit).then_some(out)
             }
             #[cfg(target_arch = "wasm32")]
             {
@@ -2987,10 +3001,11 @@ fn decompress_body(codec: WireCompression, body: &[u8]) -> Option<Vec<u8>> {
 /// parity oracle). A standard zstd frame in, the inflated bytes out.
 fn zstd_decode_ruzstd(body: &[u8]) -> Option<Vec<u8>> {
     use std::io::Read;
-    let mut dec = ruzstd::StreamingDecoder::new(body).ok()?;
+    let limit = receive_limits().max_bytes;
+    let dec = ruzstd::StreamingDecoder::new(body).ok()?;
     let mut out = Vec::new();
-    dec.read_to_end(&mut out).ok()?;
-    Some(out)
+    dec.take((limit as u64).saturating_add(1)).read_to_end(&mut out).ok()?;
+    (out.len() <= limit).then_some(out)
 }
 
 // ---- Group varint (Stream VByte layout) for int arrays ------------------------
-- 
2.43.0


From ae281c517ff9e435e722e53812459acc3078490f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:51:58 +0000
Subject: [PATCH 43/45] fix: definitions precede the references to them in maps
 and sets

---
 .../src/concurrency/marshal.rs                | 54 +++++++++++++------
 1 file changed, 38 insertions(+), 16 deletions(-)

diff --git a/crates/logicaffeine_compile/src/concurrency/marshal.rs b/crates/logicaffeine_compile/src/concurrency/marshal.rs
index 13617ce..4b5c49a 100644
--- a/crates/logicaffeine_compile/src/concurrency/marshal.rs
+++ b/crates/logicaffeine_compile/src/concurrency/marshal.rs
@@ -1221,6 +1221,24 @@ pub fn message_from_wire_cached(bytes: &[u8], cache: &mut WireSchemaCache) -> Op
     message_from_wire(bytes)
 }
 
+/// Whether the encode in progress may define something once and refer back to it later (a schema
+/// cache or shared-subtree dedup), so that bytes must be produced in the order they are sent.
+fn encodes_references() -> bool {
+    DEDUP_ENABLED.with(std::cell::Cell::get) || SCHEMA_CACHE.with(|c| c.borrow().is_some())
+}
+
+/// Encode `v` self-contained — no definitions recorded, no back-references. The sort key for a
+/// canonical (order-invariant) collection.
+fn encode_without_references(v: &RuntimeValue) -> Result<Vec<u8>, String> {
+    let cache = SCHEMA_CACHE.with(|c| c.borrow_mut().take());
+    let dedup = DEDUP_ENABLED.with(|c| c.replace(false));
+    let mut out = Vec::new();
+    let encoded = native_encode(v, &mut out);
+    DEDUP_ENABLED.with(|c| c.set(dedup));
+    SCHEMA_CACHE.with(|c| *c.borrow_mut() = cache);
+    encoded.map(|()| out)
+}
+
 /// Encode side: decide how to transmit a struct schema, recording state as needed.
 fn schema_send(type_name: &str, field_names: &[String]) -> SchemaEmit {
     SCHEMA_CACHE.with(|c| {
@@ -4494,16 +4512,19 @@ fn native_encode(v: &RuntimeValue, out: &mut Vec<u8>) -> Result<(), String> {
                 // order → BYTE-IDENTICAL wire (content-addressing / dedup / cached keying / FEC hold).
                 // Mirrors the canonical `T_MAP` (sort-by-encoded-key) / `T_STRUCT` (sort-by-field-name).
                 out.push(T_SET);
-                let mut encoded: Vec<Vec<u8>> = Vec::with_capacity(b.len());
+                let refs = encodes_references();
+                let mut encoded: Vec<(Vec<u8>, &RuntimeValue)> = Vec::with_capacity(b.len());
                 for x in b.iter() {
-                    let mut xb = Vec::new();
-                    native_encode(x, &mut xb)?;
-                    encoded.push(xb);
+                    encoded.push((encode_without_references(x)?, x));
                 }
-                encoded.sort_unstable();
+                encoded.sort_unstable_by(|a, b| a.0.cmp(&b.0));
                 write_uvarint(encoded.len() as u64, out);
-                for xb in &encoded {
-                    out.extend_from_slice(xb);
+                for (xb, x) in &encoded {
+                    if refs {
+                        native_encode(x, out)?;
+                    } else {
+                        out.extend_from_slice(xb);
+                    }
                 }
             }
         }
@@ -4584,19 +4605,20 @@ fn native_encode(v: &RuntimeValue, out: &mut Vec<u8>) -> Result<(), String> {
             } else {
                 out.push(T_MAP);
                 // Canonical (general): encode each entry, then sort by encoded key.
-                let mut entries: Vec<(Vec<u8>, Vec<u8>)> = Vec::with_capacity(b.len());
+                let refs = encodes_references();
+                let mut entries: Vec<(Vec<u8>, &RuntimeValue, &RuntimeValue)> = Vec::with_capacity(b.len());
                 for (k, val) in b.iter() {
-                    let mut kb = Vec::new();
-                    native_encode(k, &mut kb)?;
-                    let mut vb = Vec::new();
-                    native_encode(val, &mut vb)?;
-                    entries.push((kb, vb));
+                    entries.push((encode_without_references(k)?, k, val));
                 }
                 entries.sort_by(|a, b| a.0.cmp(&b.0));
                 write_uvarint(entries.len() as u64, out);
-                for (kb, vb) in entries {
-                    out.extend_from_slice(&kb);
-                    out.extend_from_slice(&vb);
+                for (kb, k, val) in entries {
+                    if refs {
+                        native_encode(k, out)?;
+                    } else {
+                        out.extend_from_slice(&kb);
+                    }
+                    native_encode(val, out)?;
                 }
             }
         }
-- 
2.43.0


From 58d1b48eba6025081edf72a794355b906d72536c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:51:58 +0000
Subject: [PATCH 44/45] fix: refuse decimal scales and dimension exponents a
 receiver cannot use

---
 .../src/concurrency/marshal.rs                | 23 +++++++++++++++----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/crates/logicaffeine_compile/src/concurrency/marshal.rs b/crates/logicaffeine_compile/src/concurrency/marshal.rs
index 4b5c49a..cf07aee 100644
--- a/crates/logicaffeine_compile/src/concurrency/marshal.rs
+++ b/crates/logicaffeine_compile/src/concurrency/marshal.rs
@@ -206,7 +206,7 @@ pub fn rebuild(payload: RtPayload) -> RuntimeValue {
             for (i, slot) in exps.iter_mut().enumerate() {
                 let n = dim_num.get(i).copied().unwrap_or(0);
                 let d = dim_den.get(i).copied().unwrap_or(1);
-                *slot = logicaffeine_base::Exp::new(n, if d == 0 { 1 } else { d });
+                *slot = logicaffeine_base::Exp::new(n.max(-i32::MAX), if d == 0 { 1 } else { d.max(-i32::MAX) });
             }
             let dim = logicaffeine_base::Dimension::from_exps(exps);
             // Resolve the display unit by its symbol; a compound or unknown symbol falls back to the
@@ -4307,7 +4307,7 @@ fn decode_money(buf: &[u8], pos: &mut usize) -> Option<RuntimeValue> {
     let len = read_uvarint(buf, pos)? as usize;
     let bytes = buf.get(*pos..pos.checked_add(len)?)?;
     *pos += len;
-    let scale = u32::try_from(read_uvarint(buf, pos)?).ok()?;
+    let scale = read_decimal_scale(buf, pos)?;
     let amount = logicaffeine_base::Decimal::from_le_bytes(negative, bytes, scale);
     let clen = read_uvarint(buf, pos)? as usize;
     let cbytes = buf.get(*pos..pos.checked_add(clen)?)?;
@@ -4783,6 +4783,19 @@ fn bounded_count(n: u64) -> Option<usize> {
     (n <= receive_limits().max_elements).then_some(n)
 }
 
+/// Read a base-10 scale. A value at scale `s` spells out `s` digits when shown, so the scale is held to
+/// the receiver's string budget.
+fn read_decimal_scale(buf: &[u8], pos: &mut usize) -> Option<u32> {
+    let scale = u32::try_from(read_uvarint(buf, pos)?).ok()?;
+    (scale as usize <= receive_limits().max_string_bytes).then_some(scale)
+}
+
+/// Read one half of a dimension exponent. `i32::MIN` has no negation, so it is refused.
+fn read_exponent_part(buf: &[u8], pos: &mut usize) -> Option<i32> {
+    let v = i32::try_from(unzigzag(read_uvarint(buf, pos)?)).ok()?;
+    (v != i32::MIN).then_some(v)
+}
+
 fn native_decode(buf: &[u8], pos: &mut usize) -> Option<RuntimeValue> {
     // Bound recursion depth FIRST — a crafted deeply-nested message is refused here (clean `None`),
     // never recursed into a stack overflow. Unwinds via `Drop` as the `?`s propagate back up.
@@ -4840,7 +4853,7 @@ fn native_decode(buf: &[u8], pos: &mut usize) -> Option<RuntimeValue> {
             let len = read_uvarint(buf, pos)? as usize;
             let bytes = buf.get(*pos..pos.checked_add(len)?)?;
             *pos += len;
-            let scale = u32::try_from(read_uvarint(buf, pos)?).ok()?;
+            let scale = read_decimal_scale(buf, pos)?;
             // Decimal does NOT downsize on a whole value (the scale is meaning), so build
             // the variant directly rather than through a downsizing chokepoint.
             RuntimeValue::Decimal(Rc::new(logicaffeine_base::Decimal::from_le_bytes(
@@ -4901,8 +4914,8 @@ fn native_decode(buf: &[u8], pos: &mut usize) -> Option<RuntimeValue> {
             // Dimension: 10 exponent (numerator, denominator) pairs as zig-zag varints.
             let mut exps = [logicaffeine_base::Exp::ZERO; logicaffeine_base::BaseDim::COUNT];
             for slot in exps.iter_mut() {
-                let en = unzigzag(read_uvarint(buf, pos)?) as i32;
-                let ed = unzigzag(read_uvarint(buf, pos)?) as i32;
+                let en = read_exponent_part(buf, pos)?;
+                let ed = read_exponent_part(buf, pos)?;
                 *slot = logicaffeine_base::Exp::new(en, if ed == 0 { 1 } else { ed });
             }
             let dim = logicaffeine_base::Dimension::from_exps(exps);
-- 
2.43.0


From 4ca9246cfa5e644140197545d15a7cbed1e9ff92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:51:58 +0000
Subject: [PATCH 45/45] fix: hold every decoded count to the receiver's limits

---
 crates/logicaffeine_base/src/describe.rs      |  6 +--
 .../src/concurrency/marshal.rs                | 43 ++++++++++---------
 2 files changed, 26 insertions(+), 23 deletions(-)

diff --git a/crates/logicaffeine_base/src/describe.rs b/crates/logicaffeine_base/src/describe.rs
index a8958a4..8dfa731 100644
--- a/crates/logicaffeine_base/src/describe.rs
+++ b/crates/logicaffeine_base/src/describe.rs
@@ -2311,14 +2311,14 @@ pub fn decode_int_column_body(
         }
         // Byte column: read the count, widen each raw byte to an Int.
         T_BYTES => {
-            let n = read_uvarint(buf, pos)? as usize;
+            let n = bounded(read_uvarint(buf, pos)?, max_elements)?;
             let raw = buf.get(*pos..pos.checked_add(n)?)?;
             *pos += n;
             raw.iter().map(|&b| b as i64).collect()
         }
         // Delta column: cumulative-sum the zig-zag differences.
         T_INTS_DELTA => {
-            let n = read_uvarint(buf, pos)? as usize;
+            let n = bounded(read_uvarint(buf, pos)?, max_elements)?;
             let mut v = Vec::with_capacity(n.min(PREALLOC_CAP));
             if n > 0 {
                 let mut cur = unzigzag(read_uvarint(buf, pos)?);
@@ -2332,7 +2332,7 @@ pub fn decode_int_column_body(
         }
         // Delta-of-delta column: double cumulative sum (the inverse of `dod_encode`).
         T_INTS_DOD => {
-            let n = read_uvarint(buf, pos)? as usize;
+            let n = bounded(read_uvarint(buf, pos)?, max_elements)?;
             let mut v = Vec::with_capacity(n.min(PREALLOC_CAP));
             if n > 0 {
                 let first = unzigzag(read_uvarint(buf, pos)?);
diff --git a/crates/logicaffeine_compile/src/concurrency/marshal.rs b/crates/logicaffeine_compile/src/concurrency/marshal.rs
index cf07aee..dee2201 100644
--- a/crates/logicaffeine_compile/src/concurrency/marshal.rs
+++ b/crates/logicaffeine_compile/src/concurrency/marshal.rs
@@ -2094,7 +2094,7 @@ impl<'a> WireView<'a> {
         let mut p = 1;
         let type_name = read_str(self.val, &mut p)?;
         let f = read_uvarint(self.val, &mut p)? as usize;
-        let mut field_names = Vec::with_capacity(f);
+        let mut field_names = Vec::with_capacity(f.min(PREALLOC_CAP));
         for _ in 0..f {
             field_names.push(read_str(self.val, &mut p)?);
         }
@@ -2194,7 +2194,7 @@ impl<'a> WireView<'a> {
         let tn_len = read_uvarint(val, &mut p)? as usize; // type_name (skipped)
         p = p.checked_add(tn_len)?;
         let f = read_uvarint(val, &mut p)? as usize;
-        let mut field_names = Vec::with_capacity(f);
+        let mut field_names = Vec::with_capacity(f.min(PREALLOC_CAP));
         for _ in 0..f {
             let nlen = read_uvarint(val, &mut p)? as usize;
             field_names.push(val.get(p..p.checked_add(nlen)?)?);
@@ -3105,7 +3105,7 @@ fn gv_encode<I: Iterator<Item = i64> + Clone>(out: &mut Vec<u8>, vals: I, n: usi
 }
 
 fn gv_decode(buf: &[u8], pos: &mut usize) -> Option<Vec<i64>> {
-    let n = read_uvarint(buf, pos)? as usize;
+    let n = bounded_count(read_uvarint(buf, pos)?)?;
     let control_len = n.div_ceil(4);
     let control = buf.get(*pos..pos.checked_add(control_len)?)?;
     let mut dpos = *pos + control_len;
@@ -3183,7 +3183,7 @@ fn gv_shuffle_masks() -> &'static [[u8; 16]; 16] {
 #[target_feature(enable = "ssse3")]
 unsafe fn gv_decode_ssse3(buf: &[u8], pos: &mut usize) -> Option<Vec<i64>> {
     use std::arch::x86_64::*;
-    let n = read_uvarint(buf, pos)? as usize;
+    let n = bounded_count(read_uvarint(buf, pos)?)?;
     let control_len = n.div_ceil(4);
     let control = buf.get(*pos..pos.checked_add(control_len)?)?;
     let mut dpos = *pos + control_len;
@@ -3265,6 +3265,9 @@ fn write_str(s: &str, out: &mut Vec<u8>) {
 #[inline]
 fn read_str(buf: &[u8], pos: &mut usize) -> Option<String> {
     let n = read_uvarint(buf, pos)? as usize;
+    if n > receive_limits().max_string_bytes {
+        return None;
+    }
     let bytes = buf.get(*pos..pos.checked_add(n)?)?;
     *pos += n;
     String::from_utf8(bytes.to_vec()).ok()
@@ -4994,7 +4997,7 @@ fn native_decode(buf: &[u8], pos: &mut usize) -> Option<RuntimeValue> {
             }))
         }
         T_INTS_FIXED => {
-            let n = read_uvarint(buf, pos)? as usize;
+            let n = bounded_count(read_uvarint(buf, pos)?)?;
             let nbytes = n.checked_mul(8)?;
             let raw = buf.get(*pos..pos.checked_add(nbytes)?)?;
             *pos += nbytes;
@@ -5020,7 +5023,7 @@ fn native_decode(buf: &[u8], pos: &mut usize) -> Option<RuntimeValue> {
         }
         // 8-byte-aligned i64 blob: skip the pad, then the same memcpy as T_INTS_FIXED.
         T_INTS_ALIGNED => {
-            let n = read_uvarint(buf, pos)? as usize;
+            let n = bounded_count(read_uvarint(buf, pos)?)?;
             let pad = *buf.get(*pos)? as usize;
             *pos += 1 + pad;
             let nbytes = n.checked_mul(8)?;
@@ -5144,7 +5147,7 @@ fn native_decode(buf: &[u8], pos: &mut usize) -> Option<RuntimeValue> {
         }
         // 8-byte-aligned f64 blob: skip the pad, then the same memcpy as T_FLOATS.
         T_FLOATS_ALIGNED => {
-            let n = read_uvarint(buf, pos)? as usize;
+            let n = bounded_count(read_uvarint(buf, pos)?)?;
             let pad = *buf.get(*pos)? as usize;
             *pos += 1 + pad;
             let nbytes = n.checked_mul(8)?;
@@ -5168,7 +5171,7 @@ fn native_decode(buf: &[u8], pos: &mut usize) -> Option<RuntimeValue> {
         // Lossless XOR-delta float array: undo the running XOR and rebuild each f64
         // from its exact bits (NaN/Inf/±0/subnormals preserved).
         T_FLOATS_XOR => {
-            let n = read_uvarint(buf, pos)? as usize;
+            let n = bounded_count(read_uvarint(buf, pos)?)?;
             let mut v = Vec::with_capacity(n.min(PREALLOC_CAP));
             let mut prev = 0u64;
             for _ in 0..n {
@@ -5179,7 +5182,7 @@ fn native_decode(buf: &[u8], pos: &mut usize) -> Option<RuntimeValue> {
             RuntimeValue::List(Rc::new(RefCell::new(ListRepr::Floats(v))))
         }
         T_BOOLS => {
-            let n = read_uvarint(buf, pos)? as usize;
+            let n = bounded_count(read_uvarint(buf, pos)?)?;
             let nbytes = n.div_ceil(8);
             let bits = buf.get(*pos..pos.checked_add(nbytes)?)?;
             *pos += nbytes;
@@ -5229,7 +5232,7 @@ fn native_decode(buf: &[u8], pos: &mut usize) -> Option<RuntimeValue> {
             RuntimeValue::List(Rc::new(RefCell::new(ListRepr::Bools(v))))
         }
         T_STRINGS => {
-            let n = read_uvarint(buf, pos)? as usize;
+            let n = bounded_count(read_uvarint(buf, pos)?)?;
             let mut ends = Vec::with_capacity(n.min(PREALLOC_CAP));
             let mut total: u64 = 0;
             for _ in 0..n {
@@ -5342,7 +5345,7 @@ fn native_decode(buf: &[u8], pos: &mut usize) -> Option<RuntimeValue> {
                 dict.push(s);
                 *pos += len;
             }
-            let n = read_uvarint(buf, pos)? as usize;
+            let n = bounded_count(read_uvarint(buf, pos)?)?;
             let iw = *buf.get(*pos)?;
             *pos += 1;
             if iw > 64 {
@@ -5384,8 +5387,8 @@ fn native_decode(buf: &[u8], pos: &mut usize) -> Option<RuntimeValue> {
         }
         T_SET_STRINGS => {
             // Front-coded: reconstruct each member from `common` bytes of the previous + the suffix.
-            let n = read_uvarint(buf, pos)? as usize;
-            let mut items = Vec::with_capacity(n);
+            let n = bounded_count(read_uvarint(buf, pos)?)?;
+            let mut items = Vec::with_capacity(n.min(PREALLOC_CAP));
             let mut prev = String::new();
             for _ in 0..n {
                 let common = read_uvarint(buf, pos)? as usize;
@@ -5400,7 +5403,7 @@ fn native_decode(buf: &[u8], pos: &mut usize) -> Option<RuntimeValue> {
             RuntimeValue::Set(Rc::new(RefCell::new(items)))
         }
         T_MAP => {
-            let n = read_uvarint(buf, pos)?;
+            let n = bounded_count(read_uvarint(buf, pos)?)?;
             let mut m = MapStorage::default();
             for _ in 0..n {
                 let k = native_decode(buf, pos)?;
@@ -5426,7 +5429,7 @@ fn native_decode(buf: &[u8], pos: &mut usize) -> Option<RuntimeValue> {
                 2 => {
                     // Front-coded string column: reconstruct each value from `common` bytes of the
                     // previous + the suffix (mirrors T_SET_STRINGS).
-                    let n = read_uvarint(buf, pos)? as usize;
+                    let n = bounded_count(read_uvarint(buf, pos)?)?;
                     let mut vs = Vec::with_capacity(n.min(keys.len().saturating_add(1)));
                     let mut prev = String::new();
                     for _ in 0..n {
@@ -5447,7 +5450,7 @@ fn native_decode(buf: &[u8], pos: &mut usize) -> Option<RuntimeValue> {
                     _ => return None,
                 },
                 0 => {
-                    let n = read_uvarint(buf, pos)? as usize;
+                    let n = bounded_count(read_uvarint(buf, pos)?)?;
                     let mut vs = Vec::with_capacity(n.min(keys.len().saturating_add(1)));
                     for _ in 0..n {
                         vs.push(native_decode(buf, pos)?);
@@ -5544,7 +5547,7 @@ fn native_decode(buf: &[u8], pos: &mut usize) -> Option<RuntimeValue> {
             for _ in 0..f {
                 field_names.push(read_str(buf, pos)?);
             }
-            let n = read_uvarint(buf, pos)? as usize;
+            let n = bounded_count(read_uvarint(buf, pos)?)?;
             *pos = pos.checked_add(n.checked_mul(4)?)?; // skip the row offset table
             if *pos > buf.len() {
                 return None;
@@ -5570,7 +5573,7 @@ fn native_decode(buf: &[u8], pos: &mut usize) -> Option<RuntimeValue> {
             }
             let kinds = buf.get(*pos..pos.checked_add(f)?)?.to_vec();
             *pos += f;
-            let n = read_uvarint(buf, pos)? as usize;
+            let n = bounded_count(read_uvarint(buf, pos)?)?;
             let (offsets, stride) = fview_layout(&kinds);
             let rows_start = *pos;
             let rows_len = n.checked_mul(stride)?;
@@ -5582,7 +5585,7 @@ fn native_decode(buf: &[u8], pos: &mut usize) -> Option<RuntimeValue> {
             // Decode each field STRAIGHT into a typed column (no per-row HashMap, no `from_values`
             // re-scan) — the decode twin of the columnar encode. `field_names` is already the
             // canonical sorted order, so this is the same `Structs` repr `from_values` would build.
-            let mut columns: Vec<ListRepr> = Vec::with_capacity(f);
+            let mut columns: Vec<ListRepr> = Vec::with_capacity(f.min(PREALLOC_CAP));
             for j in 0..f {
                 let off = offsets[j];
                 let col = match kinds[j] {
@@ -5807,7 +5810,7 @@ fn decode_struct_columns(
     field_names: Vec<String>,
 ) -> Option<RuntimeValue> {
     let k = field_names.len();
-    let n = read_uvarint(buf, pos)? as usize;
+    let n = bounded_count(read_uvarint(buf, pos)?)?;
     let mut columns: Vec<ListRepr> = Vec::with_capacity(k.min(PREALLOC_CAP));
     for _ in 0..k {
         // Keep each decoded column AS its packed `ListRepr` (no `to_values`):
-- 
2.43.0

