From ef05290fb5ab656f255f8bbd87caccee85c50993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:16 +0000
Subject: [PATCH 01/31] fix: compute interval div on 128-bit nanosecond totals

The total number of nanoseconds of a month-day-nano interval does not fit in
64 bits beyond about 292 years, so the quotient was wrong (wrapped).
---
 .../src/scalar/math/spark_div.rs              | 36 +++++++++++--------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/crates/sail-function/src/scalar/math/spark_div.rs b/crates/sail-function/src/scalar/math/spark_div.rs
index b4c0b9d..28b15ae 100644
--- a/crates/sail-function/src/scalar/math/spark_div.rs
+++ b/crates/sail-function/src/scalar/math/spark_div.rs
@@ -2,8 +2,8 @@ use std::sync::Arc;
 
 use datafusion::arrow::array::{Array, ArrayRef, AsArray, Int64Array};
 use datafusion::arrow::datatypes::{
-    DataType, Field, FieldRef, IntervalDayTimeType, IntervalMonthDayNanoType, IntervalUnit,
-    IntervalYearMonthType,
+    DataType, Field, FieldRef, IntervalDayTimeType, IntervalMonthDayNano, IntervalMonthDayNanoType,
+    IntervalUnit, IntervalYearMonthType,
 };
 use datafusion_common::{Result, internal_err};
 use datafusion_expr::{
@@ -132,26 +132,34 @@ fn interval_div_inner(args: &[ArrayRef]) -> Result<ArrayRef> {
             let dividend_arr = dividend.as_primitive::<IntervalMonthDayNanoType>();
             let divisor_arr = divisor.as_primitive::<IntervalMonthDayNanoType>();
 
+            // The total number of nanoseconds may not fit in 64 bits.
+            let total_nanos = |v: IntervalMonthDayNano| {
+                v.months as i128 * 2_592_000_000_000_000
+                    + v.days as i128 * 86_400_000_000_000
+                    + v.nanoseconds as i128
+            };
+
             dividend_arr
                 .iter()
                 .zip(divisor_arr.iter())
                 .map(|(d, s)| match (d, s) {
                     (Some(d_val), Some(s_val)) => {
-                        let d_nanos = d_val.months as i64 * 2_592_000_000_000_000
-                            + d_val.days as i64 * 86_400_000_000_000
-                            + d_val.nanoseconds;
-                        let s_nanos = s_val.months as i64 * 2_592_000_000_000_000
-                            + s_val.days as i64 * 86_400_000_000_000
-                            + s_val.nanoseconds;
-                        if s_nanos != 0 {
-                            Some(d_nanos / s_nanos)
-                        } else {
-                            None
+                        let s_nanos = total_nanos(s_val);
+                        if s_nanos == 0 {
+                            return Ok(None);
                         }
+                        i64::try_from(total_nanos(d_val) / s_nanos)
+                            .map(Some)
+                            .map_err(|_| {
+                                generic_exec_err(
+                                    "spark_interval_div",
+                                    "[ARITHMETIC_OVERFLOW] long overflow",
+                                )
+                            })
                     }
-                    _ => None,
+                    _ => Ok(None),
                 })
-                .collect()
+                .collect::<Result<_>>()?
         }
         _ => {
             return Err(generic_exec_err(
-- 
2.43.0


From 6de634d65680b04cc67a986fbbb71b35ce98cb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:16 +0000
Subject: [PATCH 02/31] fix: try_mod of the minimum integer by -1 is zero, not
 NULL

---
 crates/sail-function/src/scalar/math/spark_try_mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/sail-function/src/scalar/math/spark_try_mod.rs b/crates/sail-function/src/scalar/math/spark_try_mod.rs
index df9eb38..8fc6e95 100644
--- a/crates/sail-function/src/scalar/math/spark_try_mod.rs
+++ b/crates/sail-function/src/scalar/math/spark_try_mod.rs
@@ -115,14 +115,20 @@ impl ScalarUDFImpl for SparkTryMod {
             (DataType::Int32, DataType::Int32) => {
                 let l = left_arr.as_primitive::<Int32Type>();
                 let r = right_arr.as_primitive::<Int32Type>();
-                let result = try_binary_op_primitive::<Int32Type, _>(l, r, i32::checked_rem);
+                let result = try_binary_op_primitive::<Int32Type, _>(l, r, |a, b| {
+                    // The remainder of `i32::MIN % -1` is zero rather than an overflow.
+                    (b != 0).then(|| a.wrapping_rem(b))
+                });
 
                 binary_op_scalar_or_array(left, right, result)
             }
             (DataType::Int64, DataType::Int64) => {
                 let l = left_arr.as_primitive::<Int64Type>();
                 let r = right_arr.as_primitive::<Int64Type>();
-                let result = try_binary_op_primitive::<Int64Type, _>(l, r, i64::checked_rem);
+                let result = try_binary_op_primitive::<Int64Type, _>(l, r, |a, b| {
+                    // The remainder of `i64::MIN % -1` is zero rather than an overflow.
+                    (b != 0).then(|| a.wrapping_rem(b))
+                });
 
                 binary_op_scalar_or_array(left, right, result)
             }
-- 
2.43.0


From ca7bdae5b2bef9fdc667607edcf5c25110a0f20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:16 +0000
Subject: [PATCH 03/31] fix: try_subtract of intervals is exact for the minimum
 subtrahend

Negating the subtrahend first wraps when a field holds the minimum value.
---
 .../src/scalar/math/spark_try_subtract.rs         |  8 +++-----
 .../sail-function/src/scalar/math/utils/try_op.rs | 15 +++++++++++++--
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/crates/sail-function/src/scalar/math/spark_try_subtract.rs b/crates/sail-function/src/scalar/math/spark_try_subtract.rs
index 8af03f4..586ec67 100644
--- a/crates/sail-function/src/scalar/math/spark_try_subtract.rs
+++ b/crates/sail-function/src/scalar/math/spark_try_subtract.rs
@@ -1,4 +1,3 @@
-use std::ops::Neg;
 use std::sync::Arc;
 
 use datafusion::arrow::array::{Array, AsArray, Date32Array};
@@ -16,8 +15,8 @@ use datafusion_expr::{
 
 use crate::error::{invalid_arg_count_exec_err, unsupported_data_types_exec_err};
 use crate::scalar::math::utils::try_op::{
-    add_months, binary_op_scalar_or_array, try_add_interval_monthdaynano, try_binary_op_date32_i32,
-    try_binary_op_primitive, try_op_date32_interval_yearmonth, try_op_date32_monthdaynano,
+    add_months, binary_op_scalar_or_array, try_binary_op_date32_i32, try_binary_op_primitive,
+    try_op_date32_interval_yearmonth, try_op_date32_monthdaynano, try_op_interval_monthdaynano,
     try_op_interval_yearmonth, try_op_timestamp_duration,
 };
 
@@ -173,8 +172,7 @@ impl ScalarUDFImpl for SparkTrySubtract {
             (DataType::Interval(MonthDayNano), DataType::Interval(MonthDayNano)) => {
                 let l = left_arr.as_primitive::<IntervalMonthDayNanoType>();
                 let r = right_arr.as_primitive::<IntervalMonthDayNanoType>();
-                let negated_r = r.iter().map(|opt| opt.map(|v| v.neg())).collect();
-                let result = try_add_interval_monthdaynano(l, &negated_r);
+                let result = try_op_interval_monthdaynano(l, r, |a, b| a.checked_sub(b));
 
                 binary_op_scalar_or_array(left, right, result)
             }
diff --git a/crates/sail-function/src/scalar/math/utils/try_op.rs b/crates/sail-function/src/scalar/math/utils/try_op.rs
index f800609..166f4ba 100644
--- a/crates/sail-function/src/scalar/math/utils/try_op.rs
+++ b/crates/sail-function/src/scalar/math/utils/try_op.rs
@@ -247,6 +247,17 @@ pub fn try_add_interval_monthdaynano(
     l: &PrimitiveArray<IntervalMonthDayNanoType>,
     r: &PrimitiveArray<IntervalMonthDayNanoType>,
 ) -> PrimitiveArray<IntervalMonthDayNanoType> {
+    try_op_interval_monthdaynano(l, r, |a, b| a.checked_add(b))
+}
+
+pub fn try_op_interval_monthdaynano<F>(
+    l: &PrimitiveArray<IntervalMonthDayNanoType>,
+    r: &PrimitiveArray<IntervalMonthDayNanoType>,
+    op: F,
+) -> PrimitiveArray<IntervalMonthDayNanoType>
+where
+    F: Fn(IntervalMonthDayNano, IntervalMonthDayNano) -> Option<IntervalMonthDayNano>,
+{
     let mut builder = PrimitiveBuilder::<IntervalMonthDayNanoType>::with_capacity(l.len());
 
     for i in 0..l.len() {
@@ -256,8 +267,8 @@ pub fn try_add_interval_monthdaynano(
             let a = l.value(i);
             let b = r.value(i);
 
-            match a.checked_add(b) {
-                Some(sum) => builder.append_value(sum),
+            match op(a, b) {
+                Some(v) => builder.append_value(v),
                 None => builder.append_null(),
             }
         }
-- 
2.43.0


From 7820c3a85dd2f051e378c19ba581f5e89a7fd847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:16 +0000
Subject: [PATCH 04/31] fix: try_divide of intervals is exact

The day-time part went through f64, which cannot represent every number of
nanoseconds, and the months and days were truncated to 32 bits on overflow.
---
 .../src/scalar/math/utils/try_op.rs              | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/sail-function/src/scalar/math/utils/try_op.rs b/crates/sail-function/src/scalar/math/utils/try_op.rs
index 166f4ba..ef6905a 100644
--- a/crates/sail-function/src/scalar/math/utils/try_op.rs
+++ b/crates/sail-function/src/scalar/math/utils/try_op.rs
@@ -385,16 +385,24 @@ fn div_monthdaynano_by_i64_one(
         return None;
     }
 
-    let months_out = (iv.months as i64).checked_div(denom)? as i32;
+    let months_out = i32::try_from((iv.months as i64).checked_div(denom)?).ok()?;
 
     let total_i128 = (iv.days as i128)
         .checked_mul(DAY_NANOS_I128)
         .and_then(|v| v.checked_add(iv.nanoseconds as i128))?;
 
-    let q = (total_i128 as f64) / (denom as f64);
-    let q_rounded = q.round() as i128;
+    // Round half away from zero. The quotient is computed on integers since
+    // `f64` cannot represent every number of nanoseconds.
+    let denom = denom as i128;
+    let q = total_i128 / denom;
+    let r = total_i128 % denom;
+    let q_rounded = if r.unsigned_abs() * 2 >= denom.unsigned_abs() {
+        q + total_i128.signum() * denom.signum()
+    } else {
+        q
+    };
 
-    let days = (q_rounded / DAY_NANOS_I128) as i32;
+    let days = i32::try_from(q_rounded / DAY_NANOS_I128).ok()?;
     let nanos = (q_rounded % DAY_NANOS_I128) as i64;
 
     Some(IntervalMonthDayNano::new(months_out, days, nanos))
-- 
2.43.0


From 125bc362adee0e562d53dd131b25b4b4d2f75da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:27 +0000
Subject: [PATCH 05/31] fix: hash decimals the way Spark does (long for <= 18
 digits, minimal big-endian bytes otherwise)

---
 crates/sail-function/src/scalar/hash/utils.rs | 27 +++++++++++++++----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/crates/sail-function/src/scalar/hash/utils.rs b/crates/sail-function/src/scalar/hash/utils.rs
index 1055abf..989d36f 100644
--- a/crates/sail-function/src/scalar/hash/utils.rs
+++ b/crates/sail-function/src/scalar/hash/utils.rs
@@ -163,18 +163,35 @@ macro_rules! hash_array_primitive_float {
     };
 }
 
+/// Spark hashes the unscaled value as a long when the precision fits in a long,
+/// and as the minimal big-endian two's-complement bytes otherwise.
+fn hash_decimal128(value: i128, precision: u8, seed: u32) -> u32 {
+    const MAX_LONG_DIGITS: u8 = 18;
+    if precision <= MAX_LONG_DIGITS {
+        return spark_compatible_murmur3_hash((value as i64).to_le_bytes(), seed);
+    }
+    let bytes = value.to_be_bytes();
+    let sign = if value < 0 { 0xff } else { 0x00 };
+    // Drop the leading bytes that only repeat the sign bit of the next byte.
+    let skip = bytes
+        .windows(2)
+        .take_while(|w| w[0] == sign && (w[1] ^ sign) & 0x80 == 0)
+        .count();
+    spark_compatible_murmur3_hash(&bytes[skip..], seed)
+}
+
 macro_rules! hash_array_decimal {
-    ($array_type:ident, $column: ident, $hashes: ident, $hash_method: ident) => {
+    ($array_type:ident, $column: ident, $precision: expr, $hashes: ident) => {
         let array = $column.as_any().downcast_ref::<$array_type>().unwrap();
 
         if array.null_count() == 0 {
             for (i, hash) in $hashes.iter_mut().enumerate() {
-                *hash = $hash_method(array.value(i).to_le_bytes(), *hash);
+                *hash = hash_decimal128(array.value(i), $precision, *hash);
             }
         } else {
             for (i, hash) in $hashes.iter_mut().enumerate() {
                 if !array.is_null(i) {
-                    *hash = $hash_method(array.value(i).to_le_bytes(), *hash);
+                    *hash = hash_decimal128(array.value(i), $precision, *hash);
                 }
             }
         }
@@ -329,8 +346,8 @@ macro_rules! create_hashes_internal {
                 DataType::FixedSizeBinary(_) => {
                     hash_array!(FixedSizeBinaryArray, col, $hashes_buffer, $hash_method);
                 }
-                DataType::Decimal128(_, _) => {
-                    hash_array_decimal!(Decimal128Array, col, $hashes_buffer, $hash_method);
+                DataType::Decimal128(precision, _) => {
+                    hash_array_decimal!(Decimal128Array, col, *precision, $hashes_buffer);
                 }
                 DataType::Dictionary(index_type, _) => match **index_type {
                     DataType::Int8 => {
-- 
2.43.0


From 343f34030bfb51a55825d7ed2cea60fb660d1cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:29 +0000
Subject: [PATCH 06/31] fix: a _last_checkpoint newer than the requested Delta
 version does not hide older log files

---
 crates/sail-delta-lake/src/delta_log/segment.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/sail-delta-lake/src/delta_log/segment.rs b/crates/sail-delta-lake/src/delta_log/segment.rs
index 431100d..5c227f9 100644
--- a/crates/sail-delta-lake/src/delta_log/segment.rs
+++ b/crates/sail-delta-lake/src/delta_log/segment.rs
@@ -135,7 +135,8 @@ impl<'a> LogSegmentResolver<'a> {
 
         let last_cp_hint_version = read_last_checkpoint_version_from_store(store.clone())
             .await
-            .map(|v| v.min(version).saturating_sub(1))
+            .filter(|v| *v <= version)
+            .map(|v| v.saturating_sub(1))
             .unwrap_or(0);
         let list_offset = lower_bound.min(last_cp_hint_version);
 
@@ -286,7 +287,8 @@ impl<'a> LogSegmentResolver<'a> {
 
         let last_cp_hint_version = read_last_checkpoint_version_from_store(store.clone())
             .await
-            .map(|v| v.min(version).saturating_sub(1))
+            .filter(|v| *v <= version)
+            .map(|v| v.saturating_sub(1))
             .unwrap_or(0);
 
         let (_, checkpoint, all_commits, all_compactions) =
-- 
2.43.0


From c6d96eeeaad9c093b5afa0e51883b9ce5c661987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:14 +0000
Subject: [PATCH 07/31] fix: reject Z85 groups beyond 32 bits instead of
 truncating them

---
 crates/sail-delta-lake/src/deletion_vector/z85.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/sail-delta-lake/src/deletion_vector/z85.rs b/crates/sail-delta-lake/src/deletion_vector/z85.rs
index 450e5c0..f44224e 100644
--- a/crates/sail-delta-lake/src/deletion_vector/z85.rs
+++ b/crates/sail-delta-lake/src/deletion_vector/z85.rs
@@ -67,7 +67,10 @@ pub(crate) fn z85_decode(encoded: &str) -> DeltaResult<Vec<u8>> {
             let idx = z85_char_to_value(b)?;
             value = value * 85 + idx as u64;
         }
-        result.extend_from_slice(&(value as u32).to_be_bytes());
+        let value = u32::try_from(value).map_err(|_| {
+            DeltaError::generic(format!("Z85 group encodes a value beyond 32 bits: {value}"))
+        })?;
+        result.extend_from_slice(&value.to_be_bytes());
     }
     Ok(result)
 }
-- 
2.43.0


From 471b71001a2f44dea8facf38c28b6f3912e97bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:14 +0000
Subject: [PATCH 08/31] fix: a malformed deletion vector path is an error, not
 a panic

---
 crates/sail-delta-lake/src/deletion_vector/resolve.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/sail-delta-lake/src/deletion_vector/resolve.rs b/crates/sail-delta-lake/src/deletion_vector/resolve.rs
index 9438132..7e76264 100644
--- a/crates/sail-delta-lake/src/deletion_vector/resolve.rs
+++ b/crates/sail-delta-lake/src/deletion_vector/resolve.rs
@@ -34,8 +34,11 @@ pub fn resolve_dv_absolute_path(
                     path_field.len()
                 )));
             }
-            let prefix = &path_field[..path_field.len() - 20];
-            let uuid_encoded = &path_field[path_field.len() - 20..];
+            let (prefix, uuid_encoded) = path_field
+                .split_at_checked(path_field.len() - 20)
+                .ok_or_else(|| {
+                    DeltaError::generic("UuidRelativePath does not end with 20 Z85 characters")
+                })?;
             let decoded = decode_z85_uuid(uuid_encoded)?;
             let uuid = Uuid::from_bytes(decoded);
             let relative_path = if prefix.is_empty() {
-- 
2.43.0


From 01c230b590cb8183d1b2ffece559f7c849096f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:14 +0000
Subject: [PATCH 09/31] fix: replay compacted files that directly follow a
 checkpoint

---
 .../sail-delta-lake/src/delta_log/replay.rs   | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/crates/sail-delta-lake/src/delta_log/replay.rs b/crates/sail-delta-lake/src/delta_log/replay.rs
index 9de6bbe..7ade629 100644
--- a/crates/sail-delta-lake/src/delta_log/replay.rs
+++ b/crates/sail-delta-lake/src/delta_log/replay.rs
@@ -74,6 +74,16 @@ fn is_json_checkpoint_location(meta: &ObjectMeta) -> bool {
         .is_some_and(is_json_checkpoint_filename)
 }
 
+/// The lowest version covered by the commit and compacted files of a log segment.
+fn first_replayed_version(
+    commit_files: &[(i64, ObjectMeta)],
+    compaction_files: &[((i64, i64), ObjectMeta)],
+) -> Option<i64> {
+    let commits = commit_files.iter().map(|(version, _)| *version);
+    let compactions = compaction_files.iter().map(|((start, _), _)| *start);
+    commits.chain(compactions).min()
+}
+
 pub(crate) async fn load_replayed_table_state(
     version: i64,
     log_store: &dyn LogStore,
@@ -108,10 +118,7 @@ pub(crate) async fn load_replayed_table_state(
         for row in rows {
             state.apply_checkpoint_row(row)?;
         }
-        commit_files
-            .first()
-            .map(|(v, _)| *v)
-            .or_else(|| compaction_files.first().map(|((s, _), _)| *s))
+        first_replayed_version(&commit_files, &compaction_files)
             .unwrap_or(target_version.saturating_add(1))
     } else {
         0
@@ -195,10 +202,7 @@ pub(crate) async fn load_replayed_table_header(
                 Some(cp_meta) => {
                     let cp_state =
                         read_checkpoint_header_from_checkpoint_file(store.clone(), cp_meta).await?;
-                    let next_v = commit_files
-                        .first()
-                        .map(|(v, _)| *v)
-                        .or_else(|| compaction_files.first().map(|((s, _), _)| *s))
+                    let next_v = first_replayed_version(&commit_files, &compaction_files)
                         .unwrap_or(target_version.saturating_add(1));
                     (cp_state, next_v, BTreeMap::new())
                 }
-- 
2.43.0


From 2e79ca2f52fa28cbcad58f740379e2a9751c909b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:14 +0000
Subject: [PATCH 10/31] fix: log compaction keeps tombstones of files added
 before its range

---
 crates/sail-delta-lake/src/checkpoint/mod.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/sail-delta-lake/src/checkpoint/mod.rs b/crates/sail-delta-lake/src/checkpoint/mod.rs
index 533ed26..81311a1 100644
--- a/crates/sail-delta-lake/src/checkpoint/mod.rs
+++ b/crates/sail-delta-lake/src/checkpoint/mod.rs
@@ -1390,15 +1390,17 @@ pub(crate) async fn create_log_compaction_for(
             );
         }
     }
-    // Filter removes that are expired (tombstone retention).
+    // Filter removes that are expired (tombstone retention), unless the file may have been added
+    // before the compacted range: the tombstone is then what keeps it out of the table.
     // Removes with no deletion_timestamp are retained, matching checkpoint pruning semantics.
     let mut removes: Vec<_> = state.removes.values().collect();
     removes.sort_by(|a, b| a.path.cmp(&b.path));
     for remove in removes {
-        if remove
-            .deletion_timestamp
-            .map(|ts| ts >= min_file_retention_timestamp_millis)
-            .unwrap_or(true)
+        if start_version > 0
+            || remove
+                .deletion_timestamp
+                .map(|ts| ts >= min_file_retention_timestamp_millis)
+                .unwrap_or(true)
         {
             lines.push(
                 serde_json::to_string(&Action::Remove(remove.clone()))
-- 
2.43.0


From 5301c319e5bf013a15f437507493651c29dd560a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:14 +0000
Subject: [PATCH 11/31] fix: log compaction keeps domain metadata removals

---
 crates/sail-delta-lake/src/checkpoint/mod.rs | 25 ++++++++++++++------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/crates/sail-delta-lake/src/checkpoint/mod.rs b/crates/sail-delta-lake/src/checkpoint/mod.rs
index 81311a1..7040861 100644
--- a/crates/sail-delta-lake/src/checkpoint/mod.rs
+++ b/crates/sail-delta-lake/src/checkpoint/mod.rs
@@ -1335,6 +1335,8 @@ pub(crate) async fn create_log_compaction_for(
 
     // Replay the commit range to reconcile actions.
     let mut state = ReconciledCheckpointState::default();
+    // Removals of domains that may have been set before the compacted range.
+    let mut removed_domains: BTreeMap<String, DomainMetadata> = BTreeMap::new();
     let mut commit_count: i64 = 0;
     for version in start_version..=end_version {
         let bytes = match log_store.read_commit_entry(version).await? {
@@ -1347,6 +1349,13 @@ pub(crate) async fn create_log_compaction_for(
         };
         let actions = get_actions(version, &bytes)?;
         for action in actions {
+            if let Action::DomainMetadata(domain) = &action {
+                if domain.removed {
+                    removed_domains.insert(domain.domain.clone(), domain.clone());
+                } else {
+                    removed_domains.remove(&domain.domain);
+                }
+            }
             state.apply_action(action);
         }
         commit_count += 1;
@@ -1380,15 +1389,17 @@ pub(crate) async fn create_log_compaction_for(
                 .map_err(DeltaTableError::generic_err)?,
         );
     }
-    let mut domains: Vec<_> = state.domain_metadata.values().collect();
+    let mut domains: Vec<_> = state
+        .domain_metadata
+        .values()
+        .chain(removed_domains.values())
+        .collect();
     domains.sort_by(|a, b| a.domain.cmp(&b.domain));
     for domain in domains {
-        if !domain.removed {
-            lines.push(
-                serde_json::to_string(&Action::DomainMetadata(domain.clone()))
-                    .map_err(DeltaTableError::generic_err)?,
-            );
-        }
+        lines.push(
+            serde_json::to_string(&Action::DomainMetadata(domain.clone()))
+                .map_err(DeltaTableError::generic_err)?,
+        );
     }
     // Filter removes that are expired (tombstone retention), unless the file may have been added
     // before the compacted range: the tombstone is then what keeps it out of the table.
-- 
2.43.0


From 4149742a74dc54503a199589c34f1a7690324d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:21 +0000
Subject: [PATCH 12/31] fix: Iceberg year and month transforms accept dates
 before 1970

---
 crates/sail-iceberg/src/utils/transform.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/crates/sail-iceberg/src/utils/transform.rs b/crates/sail-iceberg/src/utils/transform.rs
index 6627e08..c4206de 100644
--- a/crates/sail-iceberg/src/utils/transform.rs
+++ b/crates/sail-iceberg/src/utils/transform.rs
@@ -192,10 +192,22 @@ pub fn apply_transform(
 // ==== Helpers for temporal transforms ====
 const UNIX_EPOCH_YEAR: i32 = 1970;
 
-pub fn days_to_year(days: i32) -> i32 {
+/// Convert days since the epoch (negative before 1970) to a date,
+/// limited to the range of dates that can be represented.
+fn days_to_date(days: i32) -> chrono::NaiveDate {
     #[expect(clippy::unwrap_used)]
     let epoch = chrono::NaiveDate::from_ymd_opt(1970, 1, 1).unwrap();
-    let date = epoch + chrono::Days::new(days as u64);
+    epoch
+        .checked_add_signed(chrono::Duration::days(i64::from(days)))
+        .unwrap_or(if days < 0 {
+            chrono::NaiveDate::MIN
+        } else {
+            chrono::NaiveDate::MAX
+        })
+}
+
+pub fn days_to_year(days: i32) -> i32 {
+    let date = days_to_date(days);
     date.year() - UNIX_EPOCH_YEAR
 }
 
@@ -206,9 +218,7 @@ pub fn micros_to_year(micros: i64) -> i32 {
 }
 
 pub fn days_to_months(days: i32) -> i32 {
-    #[expect(clippy::unwrap_used)]
-    let epoch = chrono::NaiveDate::from_ymd_opt(1970, 1, 1).unwrap();
-    let date = epoch + chrono::Days::new(days as u64);
+    let date = days_to_date(days);
     (date.year() - UNIX_EPOCH_YEAR) * 12 + (date.month0() as i32)
 }
 
-- 
2.43.0


From 8470ea64346e645400a899dd10fe55f466327608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:21 +0000
Subject: [PATCH 13/31] fix: bucket Iceberg decimals by their minimum
 two's-complement bytes

---
 crates/sail-iceberg/src/utils/transform.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/sail-iceberg/src/utils/transform.rs b/crates/sail-iceberg/src/utils/transform.rs
index c4206de..db2b94f 100644
--- a/crates/sail-iceberg/src/utils/transform.rs
+++ b/crates/sail-iceberg/src/utils/transform.rs
@@ -257,12 +257,18 @@ fn hash_long(v: i64) -> i32 {
 
 #[inline]
 fn hash_decimal(v: i128) -> i32 {
+    // The Iceberg specification hashes the minimum number of bytes
+    // for the two's-complement big-endian representation.
     let bytes = v.to_be_bytes();
-    if let Some(start) = bytes.iter().position(|&x| x != 0) {
-        hash_bytes(&bytes[start..])
-    } else {
-        hash_bytes(&[0])
+    let fill = if v < 0 { 0xff } else { 0x00 };
+    let mut start = 0;
+    while start < bytes.len() - 1
+        && bytes[start] == fill
+        && (bytes[start + 1] & 0x80) == (fill & 0x80)
+    {
+        start += 1;
     }
+    hash_bytes(&bytes[start..])
 }
 
 #[inline]
-- 
2.43.0


From b4ba3c98f24f6b357f79632119c5dacddc1ef2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:21 +0000
Subject: [PATCH 14/31] fix: bucket Iceberg nanosecond timestamps by their
 microseconds

---
 crates/sail-iceberg/src/utils/transform.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/sail-iceberg/src/utils/transform.rs b/crates/sail-iceberg/src/utils/transform.rs
index db2b94f..84bd01f 100644
--- a/crates/sail-iceberg/src/utils/transform.rs
+++ b/crates/sail-iceberg/src/utils/transform.rs
@@ -54,6 +54,13 @@ pub fn apply_transform(
                 Some(Literal::Primitive(PrimitiveLiteral::Int(bucket_int(v, n))))
             }
             Some(Literal::Primitive(PrimitiveLiteral::Long(v))) => {
+                // Nanosecond timestamps are hashed with microsecond precision.
+                let v = match field_type {
+                    Type::Primitive(PrimitiveType::TimestampNs | PrimitiveType::TimestamptzNs) => {
+                        v.div_euclid(1_000)
+                    }
+                    _ => v,
+                };
                 Some(Literal::Primitive(PrimitiveLiteral::Int(bucket_long(v, n))))
             }
             Some(Literal::Primitive(PrimitiveLiteral::Int128(v))) => Some(Literal::Primitive(
-- 
2.43.0


From 1b24dd3d74c3b3040a24c64ef101787b482c87d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:21 +0000
Subject: [PATCH 15/31] fix: the Iceberg truncate transform truncates decimals
 and binaries

---
 crates/sail-iceberg/src/utils/transform.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/sail-iceberg/src/utils/transform.rs b/crates/sail-iceberg/src/utils/transform.rs
index 84bd01f..e08adf8 100644
--- a/crates/sail-iceberg/src/utils/transform.rs
+++ b/crates/sail-iceberg/src/utils/transform.rs
@@ -46,6 +46,15 @@ pub fn apply_transform(
                 let rem = v.rem_euclid(w);
                 Some(Literal::Primitive(PrimitiveLiteral::Long(v - rem)))
             }
+            Some(Literal::Primitive(PrimitiveLiteral::Int128(v))) => {
+                let w = i128::from(w);
+                let rem = v.rem_euclid(w);
+                Some(Literal::Primitive(PrimitiveLiteral::Int128(v - rem)))
+            }
+            Some(Literal::Primitive(PrimitiveLiteral::Binary(mut b))) => {
+                b.truncate(w as usize);
+                Some(Literal::Primitive(PrimitiveLiteral::Binary(b)))
+            }
             other => other,
         },
         Transform::Bucket(n) => match value {
-- 
2.43.0


From e92deaf88cf39a9907c66341374beb1b64d6315e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:21 +0000
Subject: [PATCH 16/31] fix: the Iceberg void transform produces nulls

---
 .../src/physical_plan/partition_transform_expr.rs  | 14 +++++---------
 crates/sail-iceberg/src/utils/transform.rs         |  3 ++-
 2 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/crates/sail-iceberg/src/physical_plan/partition_transform_expr.rs b/crates/sail-iceberg/src/physical_plan/partition_transform_expr.rs
index ef544b0..f758a2f 100644
--- a/crates/sail-iceberg/src/physical_plan/partition_transform_expr.rs
+++ b/crates/sail-iceberg/src/physical_plan/partition_transform_expr.rs
@@ -75,7 +75,7 @@ impl PhysicalExpr for IcebergPartitionTransformExpr {
     }
 
     fn nullable(&self, input_schema: &Schema) -> Result<bool> {
-        self.input.nullable(input_schema)
+        Ok(self.transform == Transform::Void || self.input.nullable(input_schema)?)
     }
 
     fn evaluate(&self, batch: &RecordBatch) -> Result<ColumnarValue> {
@@ -98,14 +98,10 @@ impl PhysicalExpr for IcebergPartitionTransformExpr {
                 let scalar = ScalarValue::try_from_array(input.as_ref(), index)?;
                 let literal = scalar_to_iceberg_literal(&scalar, input.data_type())
                     .map_err(|error| plan_datafusion_err!("{error}"))?;
-                let transformed = apply_transform(self.transform, &input_type, Some(literal))
-                    .ok_or_else(|| {
-                        DataFusionError::Execution(format!(
-                            "Iceberg partition transform {} returned null for a non-null value",
-                            self.transform
-                        ))
-                    })?;
-                to_scalar(&transformed, &transformed_type)
+                match apply_transform(self.transform, &input_type, Some(literal)) {
+                    Some(transformed) => to_scalar(&transformed, &transformed_type),
+                    None => ScalarValue::try_new_null(&output_type),
+                }
             })
             .collect::<Result<Vec<_>>>()?;
         Ok(ColumnarValue::Array(ScalarValue::iter_to_array(values)?))
diff --git a/crates/sail-iceberg/src/utils/transform.rs b/crates/sail-iceberg/src/utils/transform.rs
index e08adf8..917ba2f 100644
--- a/crates/sail-iceberg/src/utils/transform.rs
+++ b/crates/sail-iceberg/src/utils/transform.rs
@@ -30,7 +30,8 @@ pub fn apply_transform(
     value: Option<Literal>,
 ) -> Option<Literal> {
     match transform {
-        Transform::Identity | Transform::Unknown | Transform::Void => value,
+        Transform::Identity | Transform::Unknown => value,
+        Transform::Void => None,
         Transform::Truncate(w) => match value {
             Some(Literal::Primitive(PrimitiveLiteral::String(s))) => {
                 let taken = s.chars().take(w as usize).collect::<String>();
-- 
2.43.0


From 0e70b44e00f35a8b18af3e71e7a1926328481bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:37 +0000
Subject: [PATCH 17/31] fix: Iceberg file statistics that only bound a column
 do not exclude its values

---
 crates/sail-iceberg/src/datasource/pruning.rs | 24 ++++++++++++-------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/crates/sail-iceberg/src/datasource/pruning.rs b/crates/sail-iceberg/src/datasource/pruning.rs
index a0b54c0..9a48846 100644
--- a/crates/sail-iceberg/src/datasource/pruning.rs
+++ b/crates/sail-iceberg/src/datasource/pruning.rs
@@ -11,6 +11,7 @@
 // limitations under the License.
 
 use std::cell::RefCell;
+use std::cmp::Ordering;
 use std::collections::{HashMap, HashSet};
 use std::sync::Arc;
 
@@ -174,24 +175,29 @@ impl PruningStatistics for IcebergPruningStats {
         _value: &std::collections::HashSet<datafusion::common::scalar::ScalarValue>,
     ) -> Option<BooleanArray> {
         let field_id = self.field_id_for(_column)?;
-        let mut result = Vec::with_capacity(self.files.len());
+        // Per container: `Some(true)` if all values are known to be in the set,
+        // `Some(false)` if no value can be in the set, and `None` otherwise.
+        let mut result: Vec<Option<bool>> = Vec::with_capacity(self.files.len());
         for f in &self.files {
             let lower = f.lower_bounds().get(&field_id);
             let upper = f.upper_bounds().get(&field_id);
             if let (Some(lb), Some(ub)) = (lower, upper) {
                 let lb_sv = self.datum_to_scalar_for_field(field_id, lb);
                 let ub_sv = self.datum_to_scalar_for_field(field_id, ub);
-                let mut any_match = false;
-                for v in _value.iter() {
-                    if &lb_sv == v && &ub_sv == v {
-                        any_match = true;
-                        break;
-                    }
+                let no_nulls = f.null_value_counts().get(&field_id) == Some(&0);
+                if no_nulls && _value.iter().any(|v| &lb_sv == v && &ub_sv == v) {
+                    result.push(Some(true));
+                } else if _value.iter().all(|v| {
+                    v.partial_cmp(&lb_sv) == Some(Ordering::Less)
+                        || v.partial_cmp(&ub_sv) == Some(Ordering::Greater)
+                }) {
+                    result.push(Some(false));
+                } else {
+                    result.push(None);
                 }
-                result.push(any_match);
             } else {
                 // If stats are missing, we cannot safely prune the file.
-                result.push(true);
+                result.push(None);
             }
         }
         Some(BooleanArray::from(result))
-- 
2.43.0


From 2c35831ccae158ca8fb98f641cf6511531917aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:58 +0000
Subject: [PATCH 18/31] fix: Iceberg partition pruning does not compare a cast
 of a column as the column itself

---
 crates/sail-iceberg/src/datasource/pruning.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/crates/sail-iceberg/src/datasource/pruning.rs b/crates/sail-iceberg/src/datasource/pruning.rs
index 9a48846..863ba95 100644
--- a/crates/sail-iceberg/src/datasource/pruning.rs
+++ b/crates/sail-iceberg/src/datasource/pruning.rs
@@ -352,7 +352,6 @@ pub fn prune_manifest_entries(
 fn collect_source_eq_filters(schema: &Schema, filters: &[Expr]) -> Vec<(i32, PrimitiveLiteral)> {
     fn strip(expr: &Expr) -> &Expr {
         match expr {
-            Expr::Cast(c) => strip(&c.expr),
             Expr::Alias(a) => strip(&a.expr),
             _ => expr,
         }
@@ -411,7 +410,6 @@ fn collect_source_in_filters(
 ) -> HashMap<i32, Vec<PrimitiveLiteral>> {
     fn strip(expr: &Expr) -> &Expr {
         match expr {
-            Expr::Cast(c) => strip(&c.expr),
             Expr::Alias(a) => strip(&a.expr),
             _ => expr,
         }
@@ -718,7 +716,6 @@ fn collect_source_range_filters(
 ) -> HashMap<i32, RangeConstraint> {
     fn strip(expr: &Expr) -> &Expr {
         match expr {
-            Expr::Cast(c) => strip(&c.expr),
             Expr::Alias(a) => strip(&a.expr),
             _ => expr,
         }
-- 
2.43.0


From 5c3e50639a6a8a73a7b8edd922f847b10f041b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:16 +0000
Subject: [PATCH 19/31] fix: write negative Delta partition decimals with one
 sign

---
 crates/sail-delta-lake/src/conversion/scalar.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/sail-delta-lake/src/conversion/scalar.rs b/crates/sail-delta-lake/src/conversion/scalar.rs
index ef153b5..c765617 100644
--- a/crates/sail-delta-lake/src/conversion/scalar.rs
+++ b/crates/sail-delta-lake/src/conversion/scalar.rs
@@ -493,10 +493,13 @@ fn serialize_decimal(bits: i128, scale: i8) -> String {
     match scale.cmp(&0) {
         Ordering::Equal => bits.to_string(),
         Ordering::Greater => {
-            let value = bits;
+            let value = bits.unsigned_abs();
             let scale_u32 = scale as u32;
-            let scalar_multiple = 10_i128.pow(scale_u32);
+            let scalar_multiple = 10_u128.pow(scale_u32);
             let mut string = String::new();
+            if bits < 0 {
+                string.push('-');
+            }
             string.push_str((value / scalar_multiple).to_string().as_str());
             string.push('.');
             string.push_str(&format!(
-- 
2.43.0


From 8546eab9638be5d22dae01bbe193e11b022bc5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:26 +0000
Subject: [PATCH 20/31] fix: report only Delta partition filters as exact that
 file pruning decides

---
 .../src/datasource/expressions.rs             | 84 ++++++++++---------
 1 file changed, 44 insertions(+), 40 deletions(-)

diff --git a/crates/sail-delta-lake/src/datasource/expressions.rs b/crates/sail-delta-lake/src/datasource/expressions.rs
index bcb4eb9..bec2041 100644
--- a/crates/sail-delta-lake/src/datasource/expressions.rs
+++ b/crates/sail-delta-lake/src/datasource/expressions.rs
@@ -71,49 +71,53 @@ pub fn get_pushdown_filters(
         .collect()
 }
 
-/// Check if an expression is an exact predicate for the given columns.
+/// The number of literals up to which file pruning decides a predicate on partition columns.
+/// `PruningPredicate` does not evaluate `IN` lists of more than 20 items, and the simplifier may
+/// merge comparisons into such lists.
+const MAX_EXACT_PREDICATE_LITERALS: usize = 20;
+
+/// Check if an expression is an exact predicate for the given columns, i.e. one that file pruning
+/// decides alone, as the filter is not evaluated again on the rows of the files that are kept.
 fn expr_is_exact_predicate_for_cols(partition_cols: &[String], expr: &Expr) -> bool {
-    let mut is_applicable = true;
-    let _ = expr.apply(|expr| match expr {
-        Expr::Column(Column { name, .. }) => {
-            is_applicable &= partition_cols.contains(name);
+    count_exact_predicate_literals(partition_cols, expr)
+        .is_some_and(|literals| literals <= MAX_EXACT_PREDICATE_LITERALS)
+}
 
-            if is_applicable {
-                Ok(TreeNodeRecursion::Jump)
-            } else {
-                Ok(TreeNodeRecursion::Stop)
-            }
-        }
-        Expr::BinaryExpr(BinaryExpr { op, .. }) => {
-            is_applicable &= matches!(
-                op,
-                Operator::And
-                    | Operator::Or
-                    | Operator::NotEq
-                    | Operator::Eq
-                    | Operator::Gt
-                    | Operator::GtEq
-                    | Operator::Lt
-                    | Operator::LtEq
-            );
-            if is_applicable {
-                Ok(TreeNodeRecursion::Continue)
-            } else {
-                Ok(TreeNodeRecursion::Stop)
-            }
-        }
-        Expr::Literal(..)
-        | Expr::Not(_)
-        | Expr::IsNotNull(_)
-        | Expr::IsNull(_)
-        | Expr::Between(_)
-        | Expr::InList(_) => Ok(TreeNodeRecursion::Continue),
-        _ => {
-            is_applicable = false;
-            Ok(TreeNodeRecursion::Stop)
+/// Returns the number of literals in an exact predicate, or `None` if it is not exact.
+fn count_exact_predicate_literals(partition_cols: &[String], expr: &Expr) -> Option<usize> {
+    let is_column = |expr: &Expr| matches!(expr, Expr::Column(Column { name, .. }) if partition_cols.contains(name));
+    // Comparisons with a boolean are simplified to the column itself, for which pruning keeps NULLs.
+    let is_literal = |expr: &Expr| {
+        matches!(expr, Expr::Literal(value, _)
+            if !value.is_null() && !matches!(value, ScalarValue::Boolean(_)))
+    };
+    match expr {
+        Expr::BinaryExpr(BinaryExpr { left, op, right }) => match op {
+            Operator::And | Operator::Or => Some(
+                count_exact_predicate_literals(partition_cols, left)?
+                    + count_exact_predicate_literals(partition_cols, right)?,
+            ),
+            Operator::NotEq
+            | Operator::Eq
+            | Operator::Gt
+            | Operator::GtEq
+            | Operator::Lt
+            | Operator::LtEq => ((is_column(left) && is_literal(right))
+                || (is_literal(left) && is_column(right)))
+            .then_some(1),
+            _ => None,
+        },
+        Expr::IsNotNull(expr) | Expr::IsNull(expr) => is_column(expr).then_some(0),
+        Expr::Between(between) => {
+            (is_column(&between.expr) && is_literal(&between.low) && is_literal(&between.high))
+                .then_some(2)
         }
-    });
-    is_applicable
+        Expr::InList(in_list) => (is_column(&in_list.expr)
+            && !in_list.list.is_empty()
+            && in_list.list.iter().all(is_literal))
+        .then_some(in_list.list.len()),
+        _ => None,
+    }
 }
 
 /// Rewrite column references in a parquet pushdown predicate from logical names to the
-- 
2.43.0


From e97e811fe0cbe334a103fc55230cd3c585845932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:57 +0000
Subject: [PATCH 21/31] fix: treat Delta partition values that stand for NULL
 as NULL when pruning files

---
 crates/sail-delta-lake/src/conversion/mod.rs  |  4 +--
 .../sail-delta-lake/src/conversion/scalar.rs  | 32 ++++-------------
 .../sail-delta-lake/src/datasource/pruning.rs | 36 +++++++++----------
 3 files changed, 25 insertions(+), 47 deletions(-)

diff --git a/crates/sail-delta-lake/src/conversion/mod.rs b/crates/sail-delta-lake/src/conversion/mod.rs
index b693917..118165b 100644
--- a/crates/sail-delta-lake/src/conversion/mod.rs
+++ b/crates/sail-delta-lake/src/conversion/mod.rs
@@ -2,7 +2,7 @@ pub mod scalar;
 pub mod type_promotion;
 
 pub use scalar::{
-    ScalarConverter, ScalarExt, parse_optional_partition_value, parse_partition_value,
-    scalar_from_array_opt, scalar_value_to_array,
+    ScalarConverter, ScalarExt, is_null_partition_value, parse_optional_partition_value,
+    parse_partition_value, scalar_from_array_opt, scalar_value_to_array,
 };
 pub use type_promotion::DeltaTypeConverter;
diff --git a/crates/sail-delta-lake/src/conversion/scalar.rs b/crates/sail-delta-lake/src/conversion/scalar.rs
index c765617..39e625d 100644
--- a/crates/sail-delta-lake/src/conversion/scalar.rs
+++ b/crates/sail-delta-lake/src/conversion/scalar.rs
@@ -28,7 +28,7 @@ use datafusion::arrow::array::{
     Int64Array, LargeStringArray, RecordBatch, StringArray, StructArray, UInt8Array, UInt16Array,
     UInt32Array, UInt64Array,
 };
-use datafusion::arrow::compute::{CastOptions, cast, cast_with_options};
+use datafusion::arrow::compute::{CastOptions, cast_with_options};
 use datafusion::arrow::datatypes::DataType as ArrowDataType;
 use datafusion::common::Result as DataFusionResult;
 use datafusion::common::scalar::ScalarValue;
@@ -194,29 +194,6 @@ impl ScalarConverter {
         }
     }
 
-    pub fn string_values_to_array(
-        values: &[Option<&str>],
-        field_dt: &ArrowDataType,
-    ) -> DataFusionResult<ArrayRef> {
-        let utf8_array: ArrayRef = Arc::new(StringArray::from(
-            values
-                .iter()
-                .map(|value| value.map(ToOwned::to_owned))
-                .collect::<Vec<_>>(),
-        ));
-
-        match field_dt {
-            ArrowDataType::Utf8 => Ok(utf8_array),
-            ArrowDataType::LargeUtf8 => Ok(Arc::new(LargeStringArray::from(
-                values
-                    .iter()
-                    .map(|value| value.map(ToOwned::to_owned))
-                    .collect::<Vec<_>>(),
-            ))),
-            _ => Ok(cast(&utf8_array, field_dt)?),
-        }
-    }
-
     pub fn json_to_arrow_scalar_value(
         stat_val: &serde_json::Value,
         field_dt: &ArrowDataType,
@@ -534,11 +511,16 @@ fn number_from_f64(value: f64) -> Value {
         .unwrap_or_else(|| Value::String(value.to_string()))
 }
 
+/// Whether a partition value stored in the log stands for NULL.
+pub fn is_null_partition_value(raw: Option<&str>) -> bool {
+    raw.is_none_or(|raw| raw.is_empty() || raw == NULL_PARTITION_VALUE_DATA_PATH)
+}
+
 /// Parse a partition value string into a `ScalarValue` for the given Arrow data type.
 ///
 /// This implements Delta-specific parsing rules for partition values stored in the log.
 pub fn parse_partition_value(raw: &str, field_dt: &ArrowDataType) -> DeltaResultLocal<ScalarValue> {
-    if raw.is_empty() || raw == NULL_PARTITION_VALUE_DATA_PATH {
+    if is_null_partition_value(Some(raw)) {
         return ScalarValue::try_new_null(field_dt)
             .map_err(|e| DeltaTableError::generic(format!("Failed to create null scalar: {e}")));
     }
diff --git a/crates/sail-delta-lake/src/datasource/pruning.rs b/crates/sail-delta-lake/src/datasource/pruning.rs
index faabb3d..098571a 100644
--- a/crates/sail-delta-lake/src/datasource/pruning.rs
+++ b/crates/sail-delta-lake/src/datasource/pruning.rs
@@ -34,7 +34,7 @@ use datafusion_common::pruning::PruningStatistics;
 use datafusion_common::scalar::ScalarValue;
 use datafusion_common::{Column, DataFusionError};
 
-use crate::conversion::{ScalarConverter, parse_optional_partition_value};
+use crate::conversion::{ScalarConverter, is_null_partition_value, parse_optional_partition_value};
 use crate::delta_log::LogStoreRef;
 use crate::schema::arrow_field_physical_name;
 use crate::spec::statistics::Stats;
@@ -417,18 +417,16 @@ impl<'adds> AddStatsPruningStatistics<'adds> {
 
         let field = self.field_for(column)?;
         let storage_name = self.storage_name_for(column)?;
-        let values: Option<Vec<Option<&str>>> = self
+        let values: Option<Vec<ScalarValue>> = self
             .adds
             .iter()
             .map(|add| {
-                add.partition_values
-                    .get(&storage_name)
-                    .map(|value| value.as_deref())
+                let value = add.partition_values.get(&storage_name)?;
+                parse_optional_partition_value(value.as_deref(), field.data_type()).ok()
             })
             .collect();
-        let values = values?;
 
-        ScalarConverter::string_values_to_array(&values, field.data_type()).ok()
+        ScalarValue::iter_to_array(values?).ok()
     }
 
     fn null_scalar(dt: &datafusion::arrow::datatypes::DataType) -> ScalarValue {
@@ -571,12 +569,18 @@ impl<'adds> AddStatsPruningStatistics<'adds> {
         .map(widen_timestamp_max_stat)
     }
 
+    /// The number of rows of a file. Without statistics only the comparison of this number with
+    /// the null count of a partition column matters, for which any positive number will do.
+    fn row_count(stats: Option<&Stats>) -> u64 {
+        stats.map_or(1, |stats| stats.num_records.max(0) as u64)
+    }
+
     fn compute_null_counts(&self, column: &Column) -> Option<ArrayRef> {
         let storage_name = self.storage_name_for(column)?;
         self.build_count_array(column, |a, s| {
             if let Some(pv) = a.partition_values.get(&storage_name) {
-                if pv.is_none() {
-                    return s.map(|s| s.num_records.max(0) as u64);
+                if is_null_partition_value(pv.as_deref()) {
+                    return Some(Self::row_count(s));
                 }
                 return Some(0);
             }
@@ -610,20 +614,12 @@ impl PruningStatistics for AddStatsPruningStatistics<'_> {
     }
 
     fn row_counts(&self) -> Option<datafusion::arrow::array::ArrayRef> {
-        let mut has_value = false;
-        let values: Vec<Option<u64>> = self
+        let values: Vec<u64> = self
             .stats
             .iter()
-            .map(|s| {
-                let v = s.as_ref().map(|s| s.num_records.max(0) as u64);
-                has_value |= v.is_some();
-                v
-            })
+            .map(|s| Self::row_count(s.as_ref()))
             .collect();
-        use datafusion::arrow::array::UInt64Array;
-        has_value.then(|| {
-            std::sync::Arc::new(UInt64Array::from(values)) as datafusion::arrow::array::ArrayRef
-        })
+        Some(Arc::new(UInt64Array::from(values)))
     }
 
     fn contained(
-- 
2.43.0


From 6eb7c07e62431bc8df93a9ac27bd9c408c744ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:58 +0000
Subject: [PATCH 22/31] fix: read binary Delta partition values back as the
 bytes that were written

---
 .../sail-delta-lake/src/conversion/scalar.rs  | 28 +++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/crates/sail-delta-lake/src/conversion/scalar.rs b/crates/sail-delta-lake/src/conversion/scalar.rs
index 39e625d..6b832c6 100644
--- a/crates/sail-delta-lake/src/conversion/scalar.rs
+++ b/crates/sail-delta-lake/src/conversion/scalar.rs
@@ -505,6 +505,19 @@ fn create_escaped_binary_string(bytes: &[u8]) -> String {
     escaped
 }
 
+/// The bytes of a string in the form that [`create_escaped_binary_string`] writes.
+fn parse_escaped_binary_string(raw: &str) -> Option<Vec<u8>> {
+    raw.as_bytes()
+        .chunks(6)
+        .map(|chunk| {
+            let digits = chunk.strip_prefix(b"\\u00").filter(|d| d.len() == 2)?;
+            let high = char::from(digits[0]).to_digit(16)?;
+            let low = char::from(digits[1]).to_digit(16)?;
+            u8::try_from(high * 16 + low).ok()
+        })
+        .collect()
+}
+
 fn number_from_f64(value: f64) -> Value {
     serde_json::Number::from_f64(value)
         .map(Value::Number)
@@ -524,8 +537,19 @@ pub fn parse_partition_value(raw: &str, field_dt: &ArrowDataType) -> DeltaResult
         return ScalarValue::try_new_null(field_dt)
             .map_err(|e| DeltaTableError::generic(format!("Failed to create null scalar: {e}")));
     }
-    ScalarConverter::string_to_arrow_scalar_value(raw, field_dt)
-        .map_err(|e| DeltaTableError::generic(format!("Failed to parse partition value: {e}")))
+    let binary = match field_dt {
+        ArrowDataType::Binary | ArrowDataType::LargeBinary | ArrowDataType::BinaryView => {
+            parse_escaped_binary_string(raw)
+        }
+        _ => None,
+    };
+    match (field_dt, binary) {
+        (ArrowDataType::Binary, Some(bytes)) => Ok(ScalarValue::Binary(Some(bytes))),
+        (ArrowDataType::LargeBinary, Some(bytes)) => Ok(ScalarValue::LargeBinary(Some(bytes))),
+        (ArrowDataType::BinaryView, Some(bytes)) => Ok(ScalarValue::BinaryView(Some(bytes))),
+        _ => ScalarConverter::string_to_arrow_scalar_value(raw, field_dt)
+            .map_err(|e| DeltaTableError::generic(format!("Failed to parse partition value: {e}"))),
+    }
 }
 
 pub fn parse_optional_partition_value(
-- 
2.43.0


From 30f57209e5842fb22c9adc095ac2256b97672dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:17 +0000
Subject: [PATCH 23/31] fix: do not take rounded or truncated Delta statistics
 for the values of a column

---
 .../sail-delta-lake/src/datasource/pruning.rs | 18 +++++++++++++
 crates/sail-delta-lake/src/datasource/scan.rs |  9 +++++--
 crates/sail-delta-lake/src/snapshot/stats.rs  | 25 ++++++++++++-------
 3 files changed, 41 insertions(+), 11 deletions(-)

diff --git a/crates/sail-delta-lake/src/datasource/pruning.rs b/crates/sail-delta-lake/src/datasource/pruning.rs
index 098571a..e7767a4 100644
--- a/crates/sail-delta-lake/src/datasource/pruning.rs
+++ b/crates/sail-delta-lake/src/datasource/pruning.rs
@@ -124,6 +124,24 @@ pub(crate) fn arrow_type_contains_timestamp(data_type: &DataType) -> bool {
     }
 }
 
+/// Whether the bounds that Delta statistics give for this type are values of the column.
+/// Timestamps are cut to milliseconds, decimals pass through floating-point numbers, strings may
+/// be truncated, and floating-point bounds may leave out NaN.
+pub(crate) fn arrow_type_has_exact_bounds(data_type: &DataType) -> bool {
+    match data_type {
+        DataType::Struct(fields) => fields
+            .iter()
+            .all(|field| arrow_type_has_exact_bounds(field.data_type())),
+        _ => {
+            data_type.is_integer()
+                || matches!(
+                    data_type,
+                    DataType::Null | DataType::Boolean | DataType::Date32 | DataType::Date64
+                )
+        }
+    }
+}
+
 /// Result of file pruning operation
 #[derive(Debug, Clone)]
 pub struct PruningResult {
diff --git a/crates/sail-delta-lake/src/datasource/scan.rs b/crates/sail-delta-lake/src/datasource/scan.rs
index facfddf..7038765 100644
--- a/crates/sail-delta-lake/src/datasource/scan.rs
+++ b/crates/sail-delta-lake/src/datasource/scan.rs
@@ -43,7 +43,9 @@ use sail_common_datafusion::schema_evolution::{
 use sail_common_datafusion::variant::with_variant_extension_if_marked_storage;
 
 use crate::conversion::ScalarConverter;
-use crate::datasource::pruning::{arrow_type_contains_timestamp, widen_timestamp_max_scalar};
+use crate::datasource::pruning::{
+    arrow_type_contains_timestamp, arrow_type_has_exact_bounds, widen_timestamp_max_scalar,
+};
 use crate::datasource::{DeltaScanConfig, create_object_store_url, partitioned_file_from_action};
 use crate::delta_log::LogStoreRef;
 use crate::schema::arrow_field_physical_name;
@@ -679,8 +681,11 @@ fn stats_for_add(action: &Add, file_schema: &SchemaRef) -> Result<Option<Arc<Sta
             .unwrap_or(Precision::Absent);
 
         if arrow_type_contains_timestamp(field.data_type()) {
+            max_value = max_value.map(widen_timestamp_max_scalar);
+        }
+        if !arrow_type_has_exact_bounds(field.data_type()) {
             min_value = min_value.to_inexact();
-            max_value = max_value.map(widen_timestamp_max_scalar).to_inexact();
+            max_value = max_value.to_inexact();
         }
 
         column_statistics.push(ColumnStatistics {
diff --git a/crates/sail-delta-lake/src/snapshot/stats.rs b/crates/sail-delta-lake/src/snapshot/stats.rs
index fc3489b..6d33bd5 100644
--- a/crates/sail-delta-lake/src/snapshot/stats.rs
+++ b/crates/sail-delta-lake/src/snapshot/stats.rs
@@ -35,7 +35,8 @@ use log::warn;
 
 use super::DeltaSnapshot;
 use crate::datasource::pruning::{
-    arrow_type_contains_timestamp, widen_timestamp_max_scalar, widen_timestamp_max_stat,
+    arrow_type_contains_timestamp, arrow_type_has_exact_bounds, widen_timestamp_max_scalar,
+    widen_timestamp_max_stat,
 };
 use crate::schema::arrow_field_physical_name;
 use crate::spec::fields::{
@@ -376,14 +377,20 @@ impl<'a> SnapshotPruningStats<'a> {
             min_value = min_value.to_inexact();
             max_value = max_value.to_inexact();
         }
-        let contains_timestamp = self
-            .snapshot
-            .schema()
-            .field_with_name(name)
-            .is_ok_and(|field| arrow_type_contains_timestamp(field.data_type()));
-        if !is_partition && contains_timestamp {
-            min_value = min_value.to_inexact();
-            max_value = max_value.map(widen_timestamp_max_scalar).to_inexact();
+        if !is_partition {
+            let data_type = self
+                .snapshot
+                .schema()
+                .field_with_name(name)
+                .map(|field| field.data_type())
+                .ok();
+            if data_type.is_some_and(arrow_type_contains_timestamp) {
+                max_value = max_value.map(widen_timestamp_max_scalar);
+            }
+            if !data_type.is_some_and(arrow_type_has_exact_bounds) {
+                min_value = min_value.to_inexact();
+                max_value = max_value.to_inexact();
+            }
         }
 
         Ok(ColumnStatistics {
-- 
2.43.0


From a27737b2f9da879bc83e358f85dcd2979fbca85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:39 +0000
Subject: [PATCH 24/31] fix: round Delta decimal statistics outward, and do not
 skip files on rounded ones

---
 .../sail-delta-lake/src/conversion/scalar.rs  |  16 ++-
 crates/sail-delta-lake/src/writer/stats.rs    | 119 ++++++++++++------
 2 files changed, 92 insertions(+), 43 deletions(-)

diff --git a/crates/sail-delta-lake/src/conversion/scalar.rs b/crates/sail-delta-lake/src/conversion/scalar.rs
index 6b832c6..8bc88d4 100644
--- a/crates/sail-delta-lake/src/conversion/scalar.rs
+++ b/crates/sail-delta-lake/src/conversion/scalar.rs
@@ -271,12 +271,18 @@ impl ScalarConverter {
             _ => None,
         };
 
+        let scalar = match scalar {
+            Some(scalar) => scalar,
+            None => Self::string_to_arrow_scalar_value(&value.to_string(), field_dt)?,
+        };
         match scalar {
-            Some(scalar) => Ok(Some(scalar)),
-            None => Ok(Some(Self::string_to_arrow_scalar_value(
-                &value.to_string(),
-                field_dt,
-            )?)),
+            // A decimal of more digits does not survive the conversion to a floating-point number.
+            ScalarValue::Decimal128(Some(unscaled), _, _)
+                if value.is_f64() && unscaled.unsigned_abs() >= 10_u128.pow(15) =>
+            {
+                Ok(None)
+            }
+            scalar => Ok(Some(scalar)),
         }
     }
 
diff --git a/crates/sail-delta-lake/src/writer/stats.rs b/crates/sail-delta-lake/src/writer/stats.rs
index cff2000..19732fd 100644
--- a/crates/sail-delta-lake/src/writer/stats.rs
+++ b/crates/sail-delta-lake/src/writer/stats.rs
@@ -335,13 +335,13 @@ fn apply_variant_stats_from_footer(
             continue;
         };
         let path = normalized_variant_stats_path(&remaining_path)?;
-        if let Some(min) = aggregated.min.and_then(variant_stats_scalar) {
+        if let Some(min) = aggregated.min.known().and_then(variant_stats_scalar) {
             variant_min_values
                 .entry(top_level_column.clone())
                 .or_default()
                 .insert(path.clone(), min);
         }
-        if let Some(max) = aggregated.max.and_then(variant_stats_scalar) {
+        if let Some(max) = aggregated.max.known().and_then(variant_stats_scalar) {
             variant_max_values
                 .entry(top_level_column.clone())
                 .or_default()
@@ -500,7 +500,7 @@ impl StatsScalar {
                 Ok(Self::Date(date))
             }
             (Statistics::Int32(v), Some(LogicalType::Decimal { scale, .. })) => {
-                let val = get_stat!(v) as f64 / 10.0_f64.powi(*scale);
+                let val = decimal_bound(get_stat!(v).into(), *scale, use_min);
                 Ok(Self::Decimal(val))
             }
             (Statistics::Int32(v), _) => Ok(Self::Int32(get_stat!(v))),
@@ -531,7 +531,7 @@ impl StatsScalar {
                 }
             }
             (Statistics::Int64(v), Some(LogicalType::Decimal { scale, .. })) => {
-                let val = get_stat!(v) as f64 / 10.0_f64.powi(*scale);
+                let val = decimal_bound(get_stat!(v).into(), *scale, use_min);
                 Ok(Self::Decimal(val))
             }
             (Statistics::Int64(v), _) => Ok(Self::Int64(get_stat!(v))),
@@ -568,19 +568,21 @@ impl StatsScalar {
                 .unwrap_or_default();
 
                 let val = if val.len() <= 16 {
-                    i128::from_be_bytes(sign_extend_be(val)) as f64
+                    i128::from_be_bytes(sign_extend_be(val))
                 } else {
                     return Err(DeltaTableError::generic(format!(
                         "Decimal too large: {val:?}, precision: {precision}"
                     )));
                 };
+                let val = decimal_bound(val, *scale, use_min);
 
-                let mut val = val / 10.0_f64.powi(*scale);
-
-                if val.is_normal()
-                    && (val.trunc() as i128).to_string().len() > (precision - scale) as usize
+                // A bound that has been rounded out of the type cannot be read back.
+                if (val.trunc() as i128).unsigned_abs().to_string().len()
+                    > (precision - scale).max(1) as usize
                 {
-                    val = f64::from_bits(val.to_bits() - 1);
+                    return Err(DeltaTableError::generic(format!(
+                        "Decimal bound out of range: {val}, precision: {precision}, scale: {scale}"
+                    )));
                 }
 
                 Ok(Self::Decimal(val))
@@ -613,6 +615,28 @@ impl StatsScalar {
     }
 }
 
+/// The floating-point number that stands for a decimal as a lower or upper bound.
+fn decimal_bound(unscaled: i128, scale: i32, is_lower_bound: bool) -> f64 {
+    // Decimals of up to 15 digits are recovered from the nearest floating-point number.
+    const EXACT_LIMIT: u128 = 10_u128.pow(15);
+    const EXACT_SCALE: i32 = 22;
+    // The conversion, the power of ten and the division each lose up to one unit of precision.
+    const ROUNDING_ERROR: usize = 4;
+
+    let mut value = unscaled as f64 / 10.0_f64.powi(scale);
+    if unscaled.unsigned_abs() < EXACT_LIMIT && scale <= EXACT_SCALE {
+        return value;
+    }
+    for _ in 0..ROUNDING_ERROR {
+        value = if is_lower_bound {
+            value.next_down()
+        } else {
+            value.next_up()
+        };
+    }
+    value
+}
+
 /// Performs big endian sign extension
 pub fn sign_extend_be<const N: usize>(b: &[u8]) -> [u8; N] {
     assert!(b.len() <= N, "Array too large, expected at most {N}");
@@ -667,10 +691,41 @@ impl From<StatsScalar> for serde_json::Value {
     }
 }
 
+/// A bound on the values of a column
+enum Bound {
+    /// There are no values.
+    Empty,
+    /// There are values, but no bound on them.
+    Unknown,
+    Known(StatsScalar),
+}
+
+impl Bound {
+    fn merge(self, other: Self, prefer: std::cmp::Ordering) -> Self {
+        match (self, other) {
+            (Self::Empty, other) => other,
+            (this, Self::Empty) => this,
+            (Self::Known(this), Self::Known(other)) => match this.partial_cmp(&other) {
+                Some(ordering) if ordering == prefer => Self::Known(this),
+                Some(_) => Self::Known(other),
+                None => Self::Unknown,
+            },
+            _ => Self::Unknown,
+        }
+    }
+
+    fn known(self) -> Option<StatsScalar> {
+        match self {
+            Self::Known(scalar) => Some(scalar),
+            Self::Empty | Self::Unknown => None,
+        }
+    }
+}
+
 /// Aggregated stats from multiple row groups
 struct AggregatedStats {
-    pub min: Option<StatsScalar>,
-    pub max: Option<StatsScalar>,
+    pub min: Bound,
+    pub max: Bound,
     pub null_count: u64,
 }
 
@@ -679,8 +734,12 @@ impl From<(&Statistics, Option<&LogicalType>)> for AggregatedStats {
         let (stats, logical_type) = value;
         let null_count = stats.null_count_opt().unwrap_or_default();
         if stats.min_bytes_opt().is_some() && stats.max_bytes_opt().is_some() {
-            let min = StatsScalar::try_from_stats(stats, logical_type, true).ok();
-            let max = StatsScalar::try_from_stats(stats, logical_type, false).ok();
+            let bound = |use_min| {
+                StatsScalar::try_from_stats(stats, logical_type, use_min)
+                    .map_or(Bound::Unknown, Bound::Known)
+            };
+            let min = bound(true);
+            let max = bound(false);
             Self {
                 min,
                 max,
@@ -688,8 +747,8 @@ impl From<(&Statistics, Option<&LogicalType>)> for AggregatedStats {
             }
         } else {
             Self {
-                min: None,
-                max: None,
+                min: Bound::Empty,
+                max: Bound::Empty,
                 null_count,
             }
         }
@@ -698,26 +757,10 @@ impl From<(&Statistics, Option<&LogicalType>)> for AggregatedStats {
 
 impl AddAssign for AggregatedStats {
     fn add_assign(&mut self, rhs: Self) {
-        self.min = match (self.min.take(), rhs.min) {
-            (Some(lhs), Some(rhs)) => {
-                if lhs < rhs {
-                    Some(lhs)
-                } else {
-                    Some(rhs)
-                }
-            }
-            (lhs, rhs) => lhs.or(rhs),
-        };
-        self.max = match (self.max.take(), rhs.max) {
-            (Some(lhs), Some(rhs)) => {
-                if lhs > rhs {
-                    Some(lhs)
-                } else {
-                    Some(rhs)
-                }
-            }
-            (lhs, rhs) => lhs.or(rhs),
-        };
+        let min = std::mem::replace(&mut self.min, Bound::Empty);
+        self.min = min.merge(rhs.min, std::cmp::Ordering::Less);
+        let max = std::mem::replace(&mut self.max, Bound::Empty);
+        self.max = max.merge(rhs.max, std::cmp::Ordering::Greater);
 
         self.null_count += rhs.null_count;
     }
@@ -774,12 +817,12 @@ fn apply_min_max_for_column(
         (1, _) => {
             let key = column_descr.name().to_string();
 
-            if let Some(min) = statistics.min {
+            if let Some(min) = statistics.min.known() {
                 let min = ColumnValueStat::Value(min.into());
                 min_values.insert(key.clone(), min);
             }
 
-            if let Some(max) = statistics.max {
+            if let Some(max) = statistics.max.known() {
                 let max = ColumnValueStat::Value(max.into());
                 max_values.insert(key.clone(), max);
             }
-- 
2.43.0


From e8761bae97583ecc183ef5b844aa9e3216f4b84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:40 +0000
Subject: [PATCH 25/31] fix: do not give floating-point columns an upper bound
 that leaves out NaN

---
 crates/sail-delta-lake/src/writer/stats.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/sail-delta-lake/src/writer/stats.rs b/crates/sail-delta-lake/src/writer/stats.rs
index 19732fd..d2f76de 100644
--- a/crates/sail-delta-lake/src/writer/stats.rs
+++ b/crates/sail-delta-lake/src/writer/stats.rs
@@ -535,6 +535,10 @@ impl StatsScalar {
                 Ok(Self::Decimal(val))
             }
             (Statistics::Int64(v), _) => Ok(Self::Int64(get_stat!(v))),
+            // Parquet statistics leave out NaN, which is greater than any other value.
+            (Statistics::Float(_) | Statistics::Double(_), _) if !use_min => Err(
+                DeltaTableError::generic("floating-point statistics do not bound NaN".to_string()),
+            ),
             (Statistics::Float(v), _) => Ok(Self::Float32(get_stat!(v))),
             (Statistics::Double(v), _) => Ok(Self::Float64(get_stat!(v))),
             (Statistics::ByteArray(v), logical_type) => {
-- 
2.43.0


From 87c1770c02aa93107e32cf3bf0697d4c0e00b053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:23 +0000
Subject: [PATCH 26/31] fix: do not stop reading an Iceberg table with delete
 files at a LIMIT of undeleted rows

---
 crates/sail-iceberg/src/datasource/provider.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/sail-iceberg/src/datasource/provider.rs b/crates/sail-iceberg/src/datasource/provider.rs
index 1ec26cf..c6cb8bc 100644
--- a/crates/sail-iceberg/src/datasource/provider.rs
+++ b/crates/sail-iceberg/src/datasource/provider.rs
@@ -407,6 +407,17 @@ impl IcebergTableProvider {
         Ok(out)
     }
 
+    /// The number of rows after which further data files need not be read. The record counts of
+    /// data files include deleted rows, so that they tell nothing when there are delete files.
+    fn pruning_limit(manifest_list: &ManifestList, limit: Option<usize>) -> Option<usize> {
+        limit.filter(|_| {
+            manifest_list
+                .entries()
+                .iter()
+                .all(|manifest_file| manifest_file.content != ManifestContentType::Deletes)
+        })
+    }
+
     /// Build a [`DeleteFileIndex`] scoped to the current snapshot.
     async fn build_delete_file_index(
         &self,
@@ -871,7 +882,7 @@ impl TableProvider for IcebergTableProvider {
             let (kept, _mask) = prune_files(
                 session,
                 &pruning_filters,
-                limit,
+                Self::pruning_limit(&manifest_list, limit),
                 self.rebuild_logical_schema_for_filters(projection, filters),
                 files_only,
                 &self.schema,
@@ -1116,7 +1127,7 @@ impl IcebergTableProvider {
             let (kept, _mask) = prune_files(
                 session,
                 &pruning_filters,
-                limit,
+                Self::pruning_limit(&manifest_list, limit),
                 self.rebuild_logical_schema_for_filters(None, filters),
                 files_only,
                 &self.schema,
-- 
2.43.0


From cc8a95dbd6c127fc5b1fbd54b72865c406647dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:23 +0000
Subject: [PATCH 27/31] fix: read Iceberg partition values back with the type
 that was written

---
 crates/sail-iceberg/src/spec/types/values.rs | 44 ++++++++++++++++++--
 1 file changed, 41 insertions(+), 3 deletions(-)

diff --git a/crates/sail-iceberg/src/spec/types/values.rs b/crates/sail-iceberg/src/spec/types/values.rs
index 9c8d893..37fae2a 100644
--- a/crates/sail-iceberg/src/spec/types/values.rs
+++ b/crates/sail-iceberg/src/spec/types/values.rs
@@ -39,8 +39,10 @@ pub enum PrimitiveLiteral {
     Boolean(bool),
     Int(i32),
     Long(i64),
-    Float(OrderedFloat<f32>),
+    // Serialized values are untagged and read back as the first variant that takes them:
+    // `Double` comes first since it also holds every `Float`.
     Double(OrderedFloat<f64>),
+    Float(OrderedFloat<f32>),
     Int128(i128),
     String(String),
     UInt128(u128),
@@ -335,6 +337,36 @@ fn parse_uuid_to_u128(s: &str) -> Result<u128, String> {
 }
 
 impl Literal {
+    /// Restore the representation that `ty` calls for. Untagged serialization does not keep the
+    /// width of numbers, so that a small `long` is read back as an `Int`, for instance.
+    fn into_type(self, ty: &crate::spec::types::Type) -> Self {
+        use crate::spec::types::{PrimitiveType, Type};
+
+        match (self, ty) {
+            (Literal::Primitive(literal), Type::Primitive(ty)) => {
+                Literal::Primitive(match (literal, ty) {
+                    (
+                        PrimitiveLiteral::Int(v),
+                        PrimitiveType::Long
+                        | PrimitiveType::Time
+                        | PrimitiveType::Timestamp
+                        | PrimitiveType::Timestamptz
+                        | PrimitiveType::TimestampNs
+                        | PrimitiveType::TimestamptzNs,
+                    ) => PrimitiveLiteral::Long(i64::from(v)),
+                    (PrimitiveLiteral::Double(v), PrimitiveType::Float) => {
+                        PrimitiveLiteral::Float(OrderedFloat(v.0 as f32))
+                    }
+                    (PrimitiveLiteral::Float(v), PrimitiveType::Double) => {
+                        PrimitiveLiteral::Double(OrderedFloat(f64::from(v.0)))
+                    }
+                    (literal, _) => literal,
+                })
+            }
+            (literal, _) => literal,
+        }
+    }
+
     pub fn try_from_str(
         value: &str,
         data_type: &crate::spec::types::Type,
@@ -848,7 +880,8 @@ impl RawLiteral {
         }
         let mut out = Vec::with_capacity(values.len());
         for (i, f) in fields.iter().enumerate() {
-            out.push((f.name.clone(), values[i].clone()));
+            let value = values[i].clone().map(|v| v.into_type(&f.field_type));
+            out.push((f.name.clone(), value));
         }
         Ok(RawLiteral(out))
     }
@@ -861,7 +894,12 @@ impl RawLiteral {
         }
         ty.fields()
             .iter()
-            .map(|f| by_name.remove(&f.name).unwrap_or(None))
+            .map(|f| {
+                by_name
+                    .remove(&f.name)
+                    .flatten()
+                    .map(|v| v.into_type(&f.field_type))
+            })
             .collect()
     }
 }
-- 
2.43.0


From 534e8d39500ffbcd2e4397ddf99e80cbfd393f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:31 +0000
Subject: [PATCH 28/31] fix: do not require a task slot for each other
 partition of a task region

---
 crates/sail-execution/src/driver/job_scheduler/core.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/sail-execution/src/driver/job_scheduler/core.rs b/crates/sail-execution/src/driver/job_scheduler/core.rs
index ecb324e..9c44924 100644
--- a/crates/sail-execution/src/driver/job_scheduler/core.rs
+++ b/crates/sail-execution/src/driver/job_scheduler/core.rs
@@ -491,7 +491,11 @@ impl JobScheduler {
         let mut tasks: Vec<(TaskPlacement, TaskSet)> = vec![];
         for (key, value) in stage_groups {
             for entries in value.buckets {
-                tasks.push((key.placement, TaskSet { entries }));
+                // A region of a single partition leaves the other buckets empty.
+                // An empty task set must not take a task slot.
+                if !entries.is_empty() {
+                    tasks.push((key.placement, TaskSet { entries }));
+                }
             }
         }
 
-- 
2.43.0


From df71d5147c7079f1d942b28270e310d72e69d749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:31 +0000
Subject: [PATCH 29/31] fix: keep the output of a stage while a task reading it
 may be run again

---
 .../src/driver/job_scheduler/core.rs          | 22 ++++++++++---------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/crates/sail-execution/src/driver/job_scheduler/core.rs b/crates/sail-execution/src/driver/job_scheduler/core.rs
index 9c44924..6f31f64 100644
--- a/crates/sail-execution/src/driver/job_scheduler/core.rs
+++ b/crates/sail-execution/src/driver/job_scheduler/core.rs
@@ -157,7 +157,7 @@ impl JobScheduler {
     ///      in the region are canceled if not already.
     ///   2. If any task in the final stages is running or has succeeded, all its channels are
     ///      added as job output streams if not already.
-    ///   3. For each stage, if all the stages that consume it have succeeded, remove
+    ///   3. For each stage, if all the regions that consume it have succeeded, remove
     ///      the output streams of the stage if not already.
     ///   4. If any task exceeds the maximum allowed attempts, the task region and the job
     ///      are marked as failed.
@@ -337,18 +337,20 @@ impl JobScheduler {
             if matches!(job.stages[s].state, StageState::Inactive) {
                 continue;
             }
-            let all_consumers_succeeded = stage.consumers.iter().all(|&c| {
-                let partitions = job.graph.stages()[c]
-                    .plan
-                    .output_partitioning()
-                    .partition_count();
-                (0..partitions).all(|p| {
-                    job.stages[c].tasks[p]
+            // A consumer that has succeeded is still run again when another task of
+            // its region fails, so all the tasks in the regions must have succeeded.
+            let all_consumers_succeeded = job
+                .topology
+                .regions
+                .iter()
+                .filter(|r| r.tasks.iter().any(|t| stage.consumers.contains(&t.stage)))
+                .flat_map(|r| &r.tasks)
+                .all(|t| {
+                    job.stages[t.stage].tasks[t.partition]
                         .attempts
                         .last()
                         .is_some_and(|a| matches!(a.state, TaskState::Succeeded))
-                })
-            });
+                });
 
             if all_consumers_succeeded && !stage.consumers.is_empty() {
                 job.stages[s].state = StageState::Inactive;
-- 
2.43.0


From 4908a2f2b63a3ceab415c09f10b0f76a78b48cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:31 +0000
Subject: [PATCH 30/31] fix: do not lose the last elements of a range that ends
 near the largest or smallest BIGINT

---
 crates/sail-logical-plan/src/range.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/sail-logical-plan/src/range.rs b/crates/sail-logical-plan/src/range.rs
index a05dece..62d7a65 100644
--- a/crates/sail-logical-plan/src/range.rs
+++ b/crates/sail-logical-plan/src/range.rs
@@ -32,6 +32,12 @@ impl Range {
         let partition = partition as i128;
         let partition_start = partition * num_elements / num_partitions * step + start;
         let partition_end = (partition + 1) * num_elements / num_partitions * step + start;
+        // The step after the last element may be out of range for `i64`.
+        let partition_end = if step > 0 {
+            partition_end.min(end)
+        } else {
+            partition_end.max(end)
+        };
         Range {
             start: partition_start as i64,
             end: partition_end as i64,
-- 
2.43.0


From 924646da3c102d03bdcb8feb02e066ba5f9dede8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:47:25 +0000
Subject: [PATCH 31/31] Revert "fix: read Iceberg partition values back with
 the type that was written"

This reverts commit cc8a95dbd6c127fc5b1fbd54b72865c406647dae.
---
 crates/sail-iceberg/src/spec/types/values.rs | 44 ++------------------
 1 file changed, 3 insertions(+), 41 deletions(-)

diff --git a/crates/sail-iceberg/src/spec/types/values.rs b/crates/sail-iceberg/src/spec/types/values.rs
index 37fae2a..9c8d893 100644
--- a/crates/sail-iceberg/src/spec/types/values.rs
+++ b/crates/sail-iceberg/src/spec/types/values.rs
@@ -39,10 +39,8 @@ pub enum PrimitiveLiteral {
     Boolean(bool),
     Int(i32),
     Long(i64),
-    // Serialized values are untagged and read back as the first variant that takes them:
-    // `Double` comes first since it also holds every `Float`.
-    Double(OrderedFloat<f64>),
     Float(OrderedFloat<f32>),
+    Double(OrderedFloat<f64>),
     Int128(i128),
     String(String),
     UInt128(u128),
@@ -337,36 +335,6 @@ fn parse_uuid_to_u128(s: &str) -> Result<u128, String> {
 }
 
 impl Literal {
-    /// Restore the representation that `ty` calls for. Untagged serialization does not keep the
-    /// width of numbers, so that a small `long` is read back as an `Int`, for instance.
-    fn into_type(self, ty: &crate::spec::types::Type) -> Self {
-        use crate::spec::types::{PrimitiveType, Type};
-
-        match (self, ty) {
-            (Literal::Primitive(literal), Type::Primitive(ty)) => {
-                Literal::Primitive(match (literal, ty) {
-                    (
-                        PrimitiveLiteral::Int(v),
-                        PrimitiveType::Long
-                        | PrimitiveType::Time
-                        | PrimitiveType::Timestamp
-                        | PrimitiveType::Timestamptz
-                        | PrimitiveType::TimestampNs
-                        | PrimitiveType::TimestamptzNs,
-                    ) => PrimitiveLiteral::Long(i64::from(v)),
-                    (PrimitiveLiteral::Double(v), PrimitiveType::Float) => {
-                        PrimitiveLiteral::Float(OrderedFloat(v.0 as f32))
-                    }
-                    (PrimitiveLiteral::Float(v), PrimitiveType::Double) => {
-                        PrimitiveLiteral::Double(OrderedFloat(f64::from(v.0)))
-                    }
-                    (literal, _) => literal,
-                })
-            }
-            (literal, _) => literal,
-        }
-    }
-
     pub fn try_from_str(
         value: &str,
         data_type: &crate::spec::types::Type,
@@ -880,8 +848,7 @@ impl RawLiteral {
         }
         let mut out = Vec::with_capacity(values.len());
         for (i, f) in fields.iter().enumerate() {
-            let value = values[i].clone().map(|v| v.into_type(&f.field_type));
-            out.push((f.name.clone(), value));
+            out.push((f.name.clone(), values[i].clone()));
         }
         Ok(RawLiteral(out))
     }
@@ -894,12 +861,7 @@ impl RawLiteral {
         }
         ty.fields()
             .iter()
-            .map(|f| {
-                by_name
-                    .remove(&f.name)
-                    .flatten()
-                    .map(|v| v.into_type(&f.field_type))
-            })
+            .map(|f| by_name.remove(&f.name).unwrap_or(None))
             .collect()
     }
 }
-- 
2.43.0

