// Iceberg partition transforms against the table specification.
use crate::rt::*;
use sail_iceberg::spec::transform::Transform;
use sail_iceberg::spec::types::values::{Literal, PrimitiveLiteral as P};
use sail_iceberg::spec::types::{PrimitiveType as T, Type};
use sail_iceberg::utils::transform::apply_transform;

fn ap(t: Transform, ty: &T, v: P) -> Option<P> {
    match apply_transform(t, &Type::Primitive(ty.clone()), Some(Literal::Primitive(v))) { Some(Literal::Primitive(p)) => Some(p), _ => None }
}
fn int(p: Option<P>) -> Option<i32> { match p { Some(P::Int(v)) => Some(v), _ => None } }

// Murmur3_x86_32, seed 0
#[inline(never)]
fn k(k1: u32) -> u32 { k1.wrapping_mul(0xcc9e2d51).rotate_left(15).wrapping_mul(0x1b873593) }
#[inline(never)]
fn fin(h: u32, len: u32) -> u32 {
    let h = h ^ len; let h = h ^ (h >> 16); let h = h.wrapping_mul(0x85ebca6b);
    let h = h ^ (h >> 13); let h = h.wrapping_mul(0xc2b2ae35); h ^ (h >> 16)
}
fn murmur(v: &[u8]) -> u32 {
    let mut h = 0u32;
    let mut i = 0;
    while i + 4 <= v.len() { h = (h ^ k(u32::from_le_bytes([v[i], v[i + 1], v[i + 2], v[i + 3]]))).rotate_left(13).wrapping_mul(5).wrapping_add(0xe6546b64); i += 4; }
    let mut t = 0u32;
    let mut j = v.len();
    while j > i { j -= 1; t = t << 8 | v[j] as u32; }
    if v.len() > i { h ^= k(t); }
    fin(h, v.len() as u32)
}
#[inline(never)]
fn bucket(v: &[u8], n: u32) -> i32 { ((murmur(v) & 0x7fff_ffff) % n) as i32 }
const N: [u32; 4] = [1, 2, 10, 1000];
fn n() -> u32 { N[any_fixed(0, 3) as usize] }

//@ bound: every int and date, every long, time and timestamp, 1, 2, 10 and 1000 buckets
//@ says: integers, dates, times and timestamps bucket by the hash of their 8-byte little-endian value (nanoseconds reduced to microseconds)
crate::h!(h_bucket_int {
    let n = n();
    let v = any_i64();
    let k = any_fixed(0, 6) as usize;
    let (ty, lit, w) = match k {
        0 => (T::Int, P::Int(v as i32), v as i32 as i64),
        1 => (T::Date, P::Int(v as i32), v as i32 as i64),
        2 => (T::Long, P::Long(v), v),
        3 => (T::Time, P::Long(v), v),
        4 => (T::Timestamp, P::Long(v), v),
        5 => (T::Timestamptz, P::Long(v), v),
        _ => (T::TimestampNs, P::Long(v), v.div_euclid(1000)),
    };
    check(int(ap(Transform::Bucket(n), &ty, lit)) == Some(bucket(&w.to_le_bytes(), n)), if k == 6 { 2 } else { 1 });
});
//@ bound: every byte string and ASCII string up to 9 bytes, every UUID
//@ says: strings, binaries and UUIDs bucket by the hash of their bytes
crate::h!(h_bucket_bytes {
    let n = 10;
    let r = match any_fixed(0, 2) {
        0 => { let v = bytes(any_fixed(0, 9) as usize); let w = bucket(&v, n); int(ap(Transform::Bucket(n), &T::Binary, P::Binary(v))) == Some(w) }
        1 => { let v = ascii(any_fixed(0, 9) as usize); let w = bucket(&v, n); int(ap(Transform::Bucket(n), &T::String, P::String(as_str(&v).to_string()))) == Some(w) }
        _ => { let v = (any_u64() as u128) << 64 | any_u64() as u128; int(ap(Transform::Bucket(n), &T::Uuid, P::UInt128(v))) == Some(bucket(&v.to_be_bytes(), n)) }
    };
    check(r, 1);
});
//@ bound: every decimal whose unscaled value fits 128 bits and needs 1 to 16 bytes
//@ says: a decimal buckets by the hash of the shortest two's-complement big-endian form of its unscaled value
crate::h!(h_bucket_decimal {
    let n = 10;
    let len = any_fixed(1, 16) as usize;
    let v = ((any_u64() as u128) << 64 | any_u64() as u128) as i128;
    // v needs exactly len bytes
    let b = 8 * len as u32 - 1;
    let lo = if b == 127 { i128::MIN } else { -(1i128 << b) };
    let hi = if b == 127 { i128::MAX } else { (1i128 << b) - 1 };
    assume((v >= lo) & (v <= hi));
    if len > 1 { let b = 8 * (len as u32 - 1) - 1; assume((v < -(1i128 << b)) | (v > (1i128 << b) - 1)); }
    let be = v.to_be_bytes();
    check(int(ap(Transform::Bucket(n), &T::Decimal { precision: 38, scale: 2 }, P::Int128(v))) == Some(bucket(&be[16 - len..], n)), 1);
});
const W: [i64; 5] = [1, 3, 10, 50, 1_000_000_007];
//@ bound: every int, long and decimal (38 digits) far enough from the minimum, widths 1, 3, 10, 50 and 1000000007
//@ says: truncating a number to width w gives the largest multiple of w not above it
crate::h!(h_truncate_num {
    let w = W[any_fixed(0, 4) as usize];
    let t = Transform::Truncate(w as u32);
    match any_fixed(0, 2) {
        0 => { let v = any_i32(); assume(v as i64 >= i32::MIN as i64 + w); check(int(ap(t, &T::Int, P::Int(v))) == Some((v as i64 - (v as i64).rem_euclid(w)) as i32), 1); }
        1 => { let v = any_i64(); assume(v >= i64::MIN + w); check(matches!(ap(t, &T::Long, P::Long(v)), Some(P::Long(x)) if x == v - v.rem_euclid(w)), 2); }
        _ => { let v = any_i64() as i128 * 7; check(matches!(ap(t, &T::Decimal { precision: 38, scale: 2 }, P::Int128(v)), Some(P::Int128(x)) if x == v - v.rem_euclid(w as i128)), 3); }
    }
});
fn utf8(n: usize) -> (Vec<u8>, usize) {
    // characters of one to four bytes
    let mut v = vec![];
    let mut i = 0;
    while i < n {
        match any_fixed(1, 4) {
            1 => { let c = any_u8(); assume(c < 128); v.push(c) }
            2 => { let (a, b) = (any_u8(), any_u8()); assume((a >= 0xc2) & (a < 0xe0) & (b & 0xc0 == 0x80)); v.push(a); v.push(b) }
            4 => { v.push(0xf0); let (a, b, c) = (any_u8(), any_u8(), any_u8()); assume((a > 0x90) & (a < 0xc0) & (b & 0xc0 == 0x80) & (c & 0xc0 == 0x80)); v.push(a); v.push(b); v.push(c) }
            _ => { let (a, b, c) = (any_u8(), any_u8(), any_u8()); assume((a > 0xe0) & (a < 0xed) & (b & 0xc0 == 0x80) & (c & 0xc0 == 0x80)); v.push(a); v.push(b); v.push(c) }
        }
        i += 1;
    }
    let l = v.len();
    (v, l)
}
//@ bound: every string of up to 3 characters of 1 to 4 bytes (all lead bytes but e0, ed to ef and f1 up), every binary up to 4 bytes, widths 1 to 4
//@ says: truncating a string keeps its first w characters, truncating a binary its first w bytes
crate::h!(h_truncate_str {
    let w = any_fixed(1, 4) as usize;
    let t = Transform::Truncate(w as u32);
    if fix(any_bool() as u64) == 1 {
        let v = bytes(any_fixed(0, 4) as usize);
        let want = v[..if v.len() < w { v.len() } else { w }].to_vec();
        check(matches!(ap(t, &T::Binary, P::Binary(v)), Some(P::Binary(x)) if x == want), 1);
    } else {
        let n = any_fixed(0, 3) as usize;
        let (head, _) = utf8(if n < w { n } else { w });
        let (tail, _) = utf8(if n < w { 0 } else { n - w });
        let all = [&head[..], &tail[..]].concat();
        check(matches!(ap(t, &T::String, P::String(as_str(&all).to_string())), Some(P::String(x)) if x.as_bytes() == &head[..]), 2);
    }
});
/// Days from 1970-01-01 to y-m-d in the proleptic Gregorian calendar, by counting days and leap years.
fn days_of(y: i64, m: i64, d: i64) -> i64 {
    const CUM: [i64; 13] = [0, 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334];
    let p = y - 1;
    let before = 365 * p + p.div_euclid(4) - p.div_euclid(100) + p.div_euclid(400);
    let leap = (y.rem_euclid(4) == 0 && y.rem_euclid(100) != 0) || y.rem_euclid(400) == 0;
    before + CUM[m as usize] + ((m > 2 && leap) as i64) + d - 1 - 719_162
}
fn pick(v: &[i64]) -> i64 { v[any_fixed(0, v.len() as u64 - 1) as usize] }
fn ymd(y: i64, deep: bool) {
    let m = any_fixed(1, 12) as i64;
    let first = days_of(y, m, 1);
    let last = if m == 12 { days_of(y + 1, 1, 1) } else { days_of(y, m + 1, 1) } - 1;
    let d = any_in(first, last);
    let months = (y - 1970) * 12 + m - 1;
    let r = |t, ty: &T, v| int(ap(t, ty, v));
    let k = any_fixed(0, 2) as usize;
    if k == 0 {
        let v = P::Int(d as i32);
        check(r(Transform::Year, &T::Date, v.clone()) == Some((y - 1970) as i32), 1);
        check(r(Transform::Month, &T::Date, v.clone()) == Some(months as i32), 2);
        check(r(Transform::Day, &T::Date, v) == Some(d as i32), 3);
    } else if m == 2 || m == 12 || (deep && (m == 1 || m == 3)) {
        let unit: i64 = if k == 2 { 1_000_000_000 } else { 1_000_000 };
        // either the day is symbolic, at its first or last instant, or the instant is, on the first or last day of the month
        let (d, h, rest) = match any_fixed(0, 3) {
            0 => (d, 0, 0),
            1 => (d, 23, 3600 * unit - 1),
            2 => (first, if deep { HOURS[any_fixed(0, 2) as usize] } else { 12 }, any_in(0, 3600 * unit - 1)),
            _ => (last, if deep { HOURS[any_fixed(0, 2) as usize] } else { 12 }, any_in(0, 3600 * unit - 1)),
        };
        let v = P::Long((d * 24 + h) * 3600 * unit + rest);
        let ty = if k == 2 { T::TimestamptzNs } else if y % 2 == 0 { T::Timestamptz } else { T::Timestamp };
        check(r(Transform::Year, &ty, v.clone()) == Some((y - 1970) as i32), 4);
        check(r(Transform::Month, &ty, v.clone()) == Some(months as i32), 5);
        check(r(Transform::Day, &ty, v.clone()) == Some(d as i32), 6);
        check(r(Transform::Hour, &ty, v) == Some((d * 24 + h) as i32), 7);
    }
}
const HOURS: [i64; 3] = [0, 12, 23];
//@ bound: every date; timestamps of January, February, March and December at the first and last (micro- or nano)second of each day, and at every one of hours 0, 12 and 23 of the first and last day of each month; year 1969
//@ says: year, month, day and hour count from 1970-01-01T00:00, rounding down (two months and hour 12 only)
crate::h!(h_time_1969 { ymd(1969, false) });
//@ bound: every date; timestamps of January, February, March and December at the first and last (micro- or nano)second of each day, and at every one of hours 0, 12 and 23 of the first and last day of each month; year 2000
//@ says: year, month, day and hour count from 1970-01-01T00:00, rounding down (two months and hour 12 only)
crate::h!(h_time_2000 { ymd(2000, false) });
//@ bound: every date; timestamps of January, February, March and December at the first and last (micro- or nano)second of each day, and at every one of hours 0, 12 and 23 of the first and last day of each month; year 1970
//@ says: year, month, day and hour count from 1970-01-01T00:00, rounding down
//@ tier: thorough
//@ time: 600
crate::h!(h_time_1970 { ymd(1970, true) });
//@ bound: every date; timestamps of January, February, March and December at the first and last (micro- or nano)second of each day, and at every one of hours 0, 12 and 23 of the first and last day of each month; year 1900
//@ says: year, month, day and hour count from 1970-01-01T00:00, rounding down
//@ tier: thorough
//@ time: 600
crate::h!(h_time_1900 { ymd(1900, true) });
//@ bound: every date; timestamps of January, February, March and December at the first and last (micro- or nano)second of each day, and at every one of hours 0, 12 and 23 of the first and last day of each month; year 1899
//@ says: year, month, day and hour count from 1970-01-01T00:00, rounding down
//@ tier: thorough
//@ time: 600
crate::h!(h_time_1899 { ymd(1899, true) });
//@ bound: every date; timestamps of January, February, March and December at the first and last (micro- or nano)second of each day, and at every one of hours 0, 12 and 23 of the first and last day of each month; year 2250
//@ says: year, month, day and hour count from 1970-01-01T00:00, rounding down
//@ tier: thorough
//@ time: 600
crate::h!(h_time_2250 { ymd(2250, true) });
//@ bound: every transform applied to NULL; void applied to every int
//@ says: NULL transforms to NULL, and void transforms everything to NULL
crate::h!(h_null {
    let t = [Transform::Identity, Transform::Bucket(7), Transform::Truncate(7), Transform::Year, Transform::Month, Transform::Day, Transform::Hour, Transform::Void][any_fixed(0, 7) as usize];
    let ty = [T::Int, T::String, T::Timestamp, T::Date][any_fixed(0, 3) as usize].clone();
    check(apply_transform(t, &Type::Primitive(ty), None).is_none(), 1);
    check(ap(Transform::Identity, &T::Int, P::Int(any_i32())).is_some(), 2);
    check(ap(Transform::Void, &T::Int, P::Int(any_i32())).is_none(), 3);
});
//@ bound: every transform without parameter; bucket and truncate with every parameter below 100000, and 4294967295
//@ says: a transform's name parses back to it, and the names are the specification's
//@ fmt: real
crate::h!(h_name {
    let p = if fix(any_bool() as u64) == 1 { u32::MAX } else { let p = any_in(1, 99_999) as u32; fix_digits(p); p };
    let t = [Transform::Identity, Transform::Bucket(p), Transform::Truncate(p), Transform::Year, Transform::Month, Transform::Day, Transform::Hour, Transform::Void][any_fixed(0, 7) as usize];
    let s = t.to_string();
    check(s.parse::<Transform>() == Ok(t), 1);
    let head = match t { Transform::Identity => "identity", Transform::Bucket(_) => "bucket[", Transform::Truncate(_) => "truncate[", Transform::Year => "year", Transform::Month => "month", Transform::Day => "day", Transform::Hour => "hour", _ => "void" };
    check(s.starts_with(head), 2);
});
fn fix_digits(p: u32) { let _ = fix((p >= 10) as u64 + (p >= 100) as u64 + (p >= 1000) as u64 + (p >= 10_000) as u64); }
