// Delta partition values and file statistics, from writing to reading.
//@@ cut: arrow_cast !arrow_cast::cast::string* !arrow_cast::parse* !<arrow_cast::parse* !<arrow_array::types* !arrow_cast::cast::cast_with_options !<arrow_cast::cast::CastOptions* !arrow_cast::cast::cast !arrow_cast::cast::decimal* !<i128* !<arrow_buffer::* !arrow_buffer::* !arrow_cast::cast::cast_to_decimal* !arrow_cast::display::FormatOptions* !<arrow_cast::display::FormatOptions*
//@@ cut: tokio datafusion_common_runtime serde_arrow arrow_ipc arrow_csv arrow_json datafusion_physical_plan datafusion_functions datafusion_functions_nested datafusion_functions_aggregate datafusion_physical_expr
//@@ cut: regex regex_automata regex_syntax arrow_string arrow_row datafusion_datasource datafusion_execution apache_avro object_store reqwest hyper sqlparser datafusion_sql datafusion_optimizer datafusion_catalog
//@@ cut: arrow_arith::numeric* arrow_arith::aggregate* arrow_arith::temporal* arrow_select arrow_ord::sort* arrow_ord::rank* arrow_ord::partition* arrow_ord::ord*
use crate::rt::*;
use arrow::datatypes::{DataType, TimeUnit};
use datafusion::common::ScalarValue;
use sail_delta_lake::conversion::scalar::{parse_optional_partition_value, parse_partition_value, ScalarExt};
use std::sync::Arc;

/// Writes a partition value and reads it back.
fn back(v: &ScalarValue) -> Option<ScalarValue> { parse_partition_value(&v.serialize(), &v.data_type()).ok() }
fn edges(lo: i64, hi: i64) -> i64 {
    match any_fixed(0, 2) { 0 => any_in(lo, lo + 1009), 1 => any_in(-1009, 1009), _ => any_in(hi - 1009, hi) }
}
//@ fmt: real
//@ bound: every TINYINT and SMALLINT; INT and BIGINT within 1009 of zero and of the extremes
//@ says: integer partition values read back as the values written
crate::h!(h_int {
    match any_fixed(0, 3) {
        0 => { let x = any_u8() as i8; check(matches!(back(&ScalarValue::Int8(Some(x))), Some(ScalarValue::Int8(Some(y))) if x == y), 1) }
        1 => { let x = any_u16() as i16; check(matches!(back(&ScalarValue::Int16(Some(x))), Some(ScalarValue::Int16(Some(y))) if x == y), 2) }
        2 => { let x = edges(i32::MIN as i64, i32::MAX as i64) as i32; check(matches!(back(&ScalarValue::Int32(Some(x))), Some(ScalarValue::Int32(Some(y))) if x == y), 3) }
        _ => { let x = edges(i64::MIN, i64::MAX); check(matches!(back(&ScalarValue::Int64(Some(x))), Some(ScalarValue::Int64(Some(y))) if x == y), 4) }
    }
});
//@ fmt: real
//@ bound: unscaled values -1009 to 1009 of DECIMAL(5,2), (4,4), (10,0), (38,10) and (18,3)
//@ says: decimal partition values read back as the values written
crate::h!(h_decimal {
    let (p, s) = [(5u8, 2i8), (4, 4), (10, 0), (38, 10), (18, 3)][any_fixed(0, 4) as usize];
    let x = any_in(-1009, 1009) as i128;
    check(matches!(back(&ScalarValue::Decimal128(Some(x), p, s)), Some(ScalarValue::Decimal128(Some(y), q, t)) if (x == y) & (p == q) & (s == t)), 1);
});
//@ fmt: real
//@ bound: four days around the turn of 14 years and of their March, years 1 to 9999
//@ says: date partition values read back as the values written
crate::h!(h_date {
    let turn = [-719_162i64, -719_162 + 365 * 3 + 59, -141_427, -25_567, -25_508, -1, 0, 59, 10_957, 11_017, 19_723, 47_541, 2_932_896 - 2, -719_160][any_fixed(0, 13) as usize];
    let x = any_in(if turn < -719_160 { turn } else { turn - 2 }, turn + 1) as i32;
    check(matches!(back(&ScalarValue::Date32(Some(x))), Some(ScalarValue::Date32(Some(y))) if x == y), 1);
});
//@ fmt: real
//@ bound: 10 microseconds from each of 0 and 999990 of the seconds from 1970-01-01T00:00, 1969-12-31T00:00 and 2024-02-29T23:59:59 with time zone, and without also of those before them
//@ says: timestamp partition values read back as the values written
crate::h!(h_timestamp {
    let tz: Option<Arc<str>> = if fix(any_bool() as u64) == 1 { Some("UTC".into()) } else { None };
    let base = [0i64, -86_400, 1_709_251_199][any_fixed(0, 2) as usize] - if tz.is_none() { any_fixed(0, 1) as i64 } else { 0 };
    let x = base * 1_000_000 + [0i64, 999_990][any_fixed(0, 1) as usize] + any_in(0, 9);
    check(matches!(back(&ScalarValue::TimestampMicrosecond(Some(x), tz.clone())), Some(ScalarValue::TimestampMicrosecond(Some(y), z)) if (x == y) & (z == tz)), 1);
});
//@ fmt: real
//@ bound: every binary of up to 3 bytes, every ASCII string of up to 3 characters, booleans; NULL and the two spellings of it
//@ says: binary, string and boolean partition values read back as the values written; empty strings and NULL read back as NULL
crate::h!(h_bytes {
    match any_fixed(0, 3) {
        0 => { let b = bytes(any_fixed(1, 3) as usize); check(matches!(back(&ScalarValue::Binary(Some(b.clone()))), Some(ScalarValue::Binary(Some(y))) if b == y), 1) }
        1 => {
            let b = ascii(any_fixed(0, 3) as usize);
            match back(&ScalarValue::Utf8(Some(as_str(&b).to_string()))) { Some(ScalarValue::Utf8(Some(y))) => check((b.len() > 0) & (y.as_bytes() == &b[..]), 2), Some(ScalarValue::Utf8(None)) => check(b.is_empty(), 3), _ => check(false, 4) }
        }
        2 => { let x = any_bool(); check(matches!(back(&ScalarValue::Boolean(Some(x))), Some(ScalarValue::Boolean(Some(y))) if x == y), 5) }
        _ => {
            let t = [DataType::Utf8, DataType::Int32, DataType::Date32, DataType::Binary, DataType::Boolean, DataType::Timestamp(TimeUnit::Microsecond, None), DataType::Decimal128(5, 2)][any_fixed(0, 6) as usize].clone();
            let raw = [None, Some(""), Some("__HIVE_DEFAULT_PARTITION__")][any_fixed(0, 2) as usize];
            check(matches!(parse_optional_partition_value(raw, &t), Ok(v) if v.is_null() & (v.data_type() == t)), 6);
        }
    }
});
fn digit(b: u8) -> u8 { if b <= b'9' { b - b'0' } else { b - b'A' + 10 } }
//@ fmt: real
//@ bound: every ASCII string of up to 3 characters as a partition value
//@ says: the directory name of a partition is one path segment that stands for exactly its value
crate::h!(h_path {
    let b = ascii(any_fixed(1, 3) as usize);
    let e = ScalarValue::Utf8(Some(as_str(&b).to_string())).serialize_encoded();
    let e = e.as_bytes();
    let (mut i, mut k, mut same) = (0, 0, true);
    while i < e.len() {
        let c = e[i];
        same &= (c > 32) & (c < 127) & (c != b'/') & (c != b'\\') & (c != b'?') & (c != b'#') & (c != b'=');
        let d = if c == b'%' { i += 2; if i < e.len() { digit(e[i - 1]) * 16 + digit(e[i]) } else { same = false; 0 } } else { c };
        same &= k < b.len() && d == b[k];
        k += 1;
        i += 1;
    }
    check(same & (k == b.len()), 1);
});
