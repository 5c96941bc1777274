// hash() and the random generators behind rand/randn/shuffle/histogram: bit-exact with Spark's.
//@@ cut: datafusion_functions datafusion_common::scalar::ScalarValue::try_from_string
use crate::udf::*;
use sail_function::scalar::hash::spark_murmur3_hash::SparkMurmur3Hash;
use sail_function::scalar::math::xorshift::SparkXorShiftRandom;
use sail_function::scalar::math::java_random::JavaRandom;

// Spark's Murmur3_x86_32 (org.apache.spark.unsafe.hash), written from its definition
#[inline(never)]
fn k(k1: u32) -> u32 { k1.wrapping_mul(0xcc9e2d51).rotate_left(15).wrapping_mul(0x1b873593) }
#[inline(never)]
fn m(h: u32, k1: u32) -> u32 { (h ^ k(k1)).rotate_left(13).wrapping_mul(5).wrapping_add(0xe6546b64) }
#[inline(never)]
fn f(h: u32, len: u32) -> u32 {
    let h = h ^ len; let h = h ^ (h >> 16); let h = h.wrapping_mul(0x85ebca6b);
    let h = h ^ (h >> 13); let h = h.wrapping_mul(0xc2b2ae35); h ^ (h >> 16)
}
fn hi(v: u32, s: u32) -> u32 { f(m(s, v), 4) }
fn hl(v: u64, s: u32) -> u32 { f(m(m(s, v as u32), (v >> 32) as u32), 8) }
fn hb(v: &[u8], s: u32) -> u32 {
    let mut h = s;
    let mut i = 0;
    while i + 4 <= v.len() { h = m(h, u32::from_le_bytes([v[i], v[i + 1], v[i + 2], v[i + 3]])); i += 4; }
    while i < v.len() { h = m(h, v[i] as i8 as i32 as u32); i += 1; }
    f(h, v.len() as u32)
}
fn hash(cols: Vec<ArrayRef>) -> Option<Int32Array> {
    let n = cols[0].len();
    let r = call(&SparkMurmur3Hash::new(), cols.into_iter().map(ColumnarValue::Array).collect(), DataType::Int32, n).ok()?;
    Some(r.into_array(n).ok()?.as_primitive::<Int32Type>().clone())
}
/// value at row 0 and 2, NULL at row 1, preceded or not by another column
fn one(a: ArrayRef, want: impl Fn(u32) -> u32) {
    let pre = any_bool();
    let lead = any_i32();
    let cols = if pre { vec![col::<Int32Type>(&[Some(lead), Some(lead), None]), a] } else { vec![a] };
    let Some(r) = hash(cols) else { check(false, 1); return };
    check(r.len() == 3, 2);
    if r.len() != 3 { return; }
    let s = if pre { hi(lead as u32, 42) } else { 42 };
    check(r.null_count() == 0, 3);
    check(r.value(0) == want(s) as i32, 4);
    check(r.value(1) == s as i32, 5);
    check(r.value(2) == want(42) as i32, 6);
}
macro_rules! prim { ($n:ident, $t:ty, $any:expr, |$v:ident, $s:ident| $w:expr) => {
    crate::h!($n { let x = $any; one(col::<$t>(&[Some(x), None, Some(x)]), |$s| { let $v = x; $w }) });
} }
//@ bound: all values, first or second column, with and without NULLs
//@ says: the hash of a byte is Spark's hashInt of its sign extension; NULL leaves the running hash alone
prim!(h_i8, Int8Type, any_i8(), |v, s| hi(v as i32 as u32, s));
//@ bound: all values
prim!(h_i16, Int16Type, any_i16(), |v, s| hi(v as i32 as u32, s));
//@ bound: all values
prim!(h_i32, Int32Type, any_i32(), |v, s| hi(v as u32, s));
//@ bound: all values
prim!(h_date, Date32Type, any_i32(), |v, s| hi(v as u32, s));
//@ bound: all values
prim!(h_i64, Int64Type, any_i64(), |v, s| hl(v as u64, s));
//@ bound: all values
prim!(h_ts, TimestampMicrosecondType, any_i64(), |v, s| hl(v as u64, s));
//@ bound: all bit patterns
//@ says: float hashes as hashInt of its bits, -0.0 as 0.0
prim!(h_f32, Float32Type, { let v = any_f32(); match any_fixed(0, 2) { 0 => 0.0, 1 => -0.0, _ => { assume(v != 0.0); v } } }, |v, s| hi(if v == 0.0 { 0 } else { v.to_bits() }, s));
//@ bound: all bit patterns
//@ says: double hashes as hashLong of its bits, -0.0 as 0.0
prim!(h_f64, Float64Type, { let v = any_f64(); match any_fixed(0, 2) { 0 => 0.0, 1 => -0.0, _ => { assume(v != 0.0); v } } }, |v, s| hl(if v == 0.0 { 0 } else { v.to_bits() }, s));
//@ bound: both
crate::h!(h_bool {
    let x = any_bool();
    one(aref(BooleanArray::from(vec![Some(x), None, Some(x)])), |s| hi(x as u32, s));
});
//@ bound: all byte strings up to 10 bytes
//@ says: binary and string hash as Spark's hashUnsafeBytes: words little-endian, then one mix per signed trailing byte
crate::h!(h_binary {
    let v = bytes(any_fixed(0, 10) as usize);
    one(bins(&[Some(&v), None, Some(&v)]), |s| hb(&v, s));
});
//@ bound: all ASCII strings up to 9 bytes
crate::h!(h_string {
    let v = ascii(any_fixed(0, 9) as usize);
    one(strs(&[Some(&v), None, Some(&v)]), |s| hb(&v, s));
});
//@ bound: all i64 keys in a dictionary of 3 values, 4 rows with a NULL key, first or second column
//@ says: a dictionary column hashes like the plain column
crate::h!(h_dict {
    let (a, b, c) = (any_i32(), any_i32(), any_i32());
    let second = any_bool();
    let ks = Int8Array::from(vec![Some(2), None, Some(0), Some(1)]);
    let d = aref(DictionaryArray::<Int8Type>::new(ks, col::<Int32Type>(&[Some(a), Some(b), Some(c)])));
    let p = col::<Int32Type>(&[Some(c), None, Some(a), Some(b)]);
    let lead = || col::<Int32Type>(&[Some(5), Some(6), Some(7), Some(8)]);
    let (x, y) = if second { (vec![lead(), d], vec![lead(), p]) } else { (vec![d], vec![p]) };
    let (Some(x), Some(y)) = (hash(x), hash(y)) else { check(false, 1); return };
    let mut i = 0;
    while i < 4 { check(x.value(i) == y.value(i), 7); i += 1; }
});

// Scala's MurmurHash3.bytesHash over the big-endian bytes, twice; then Marsaglia xorshift (21, 35, 4)
fn seed(s: i64) -> u64 {
    let b = (s as u64).to_be_bytes();
    let h = |seed: u32| {
        let h = m(seed, u32::from_le_bytes([b[0], b[1], b[2], b[3]]));
        f(m(h, u32::from_le_bytes([b[4], b[5], b[6], b[7]])), 8)
    };
    let lo = h(0x3c074a61);
    (h(lo) as u64) << 32 | lo as u64
}
fn step(s: &mut u64) -> u64 { *s ^= *s << 21; *s ^= *s >> 35; *s ^= *s << 4; *s }
//@ bound: all seeds, first two ints
//@ says: the generator's state after seeding and its integer stream are Spark's XORShiftRandom's
crate::h!(h_xorshift_int {
    let s = any_i64();
    let mut r = SparkXorShiftRandom::new(s);
    let mut w = seed(s);
    check(r.next_int() == step(&mut w) as i32, 10);
    check(r.next_int() == step(&mut w) as i32, 11);
});
//@ bound: all seeds, first two doubles
//@ says: nextDouble is (next(26) << 27 + next(27)) * 2^-53 and lies in [0, 1)
crate::h!(h_xorshift_double {
    let s = any_i64();
    let mut r = SparkXorShiftRandom::new(s);
    let mut w = seed(s);
    let mut i = 0;
    while i < 2 {
        let hi = step(&mut w) & ((1 << 26) - 1);
        let lo = step(&mut w) & ((1 << 27) - 1);
        let e = ((hi << 27) + lo) as i64 as f64 / (1u64 << 53) as f64;
        let d = r.next_double();
        check(d.to_bits() == e.to_bits(), 12);
        i += 1;
    }
});
//@ bound: all states
//@ says: nextDouble lies in [0, 1)
crate::h!(h_xorshift_range {
    let mut r = SparkXorShiftRandom { seed: any_i64(), next_next_gaussian: 0.0, have_next_next_gaussian: false };
    let d = r.next_double();
    check((d >= 0.0) & (d < 1.0), 13);
});
fn lcg(s: &mut u64, bits: u32) -> i32 { *s = s.wrapping_mul(0x5DEECE66D).wrapping_add(0xB) & ((1 << 48) - 1); (*s >> (48 - bits)) as i32 }
//@ bound: all seeds, first two doubles
//@ says: the Java generator is java.util.Random's: 48-bit LCG, nextDouble from 26 and 27 bits
crate::h!(h_java_double {
    let s = any_u64();
    let mut r = JavaRandom::new(s);
    let mut w = (s ^ 0x5DEECE66D) & ((1 << 48) - 1);
    let mut i = 0;
    while i < 2 {
        let a = lcg(&mut w, 26) as u64;
        let b = lcg(&mut w, 27) as u64;
        let e = ((a << 27) + b) as f64 / (1u64 << 53) as f64;
        check(r.next_f64().to_bits() == e.to_bits(), 14);
        i += 1;
    }
});
//@ bound: all seeds for bounds that are powers of two or not positive; seeds up to 2^8 for 3, 10, 1000, 2^31-1, 2^30+1, at most one rejected draw
//@ says: nextInt(bound) is java.util.Random's, with its rejection rule
crate::h!(h_java_bound {
    let s = any_u64();
    const B: [i32; 11] = [1, 2, 8, 16, 1 << 30, 0, 3, 10, 1000, (1 << 30) + 1, i32::MAX];
    let i = any_fixed(0, 10) as usize;
    let b = B[i];
    let s = if i > 5 { s & 0xff } else { s };
    let mut r = JavaRandom::new(s);
    let mut w = (s ^ 0x5DEECE66D) & ((1 << 48) - 1);
    if b == 0 { check(r.next_i32_bound(0).is_none(), 15); check(r.next_i32_bound(any_i32() | i32::MIN).is_none(), 15); return; }
    if b & (b - 1) == 0 {
        let e = (b as i64 * lcg(&mut w, 31) as i64) >> 31;
        check(r.next_i32_bound(b) == Some(e as i32), 16);
        return;
    }
    // for (int u = next(31); u - (r = u % bound) + (bound - 1) < 0; u = next(31));
    let x = lcg(&mut w, 31);
    let got = r.next_i32_bound(b);
    if (x - x % b).wrapping_add(b - 1) >= 0 { check(got == Some(x % b), 17); return; }
    let y = lcg(&mut w, 31);
    assume((y - y % b).wrapping_add(b - 1) >= 0);
    reach(1);
    check(got == Some(y % b), 18);
});
//@ bound: all decimals of 18 digits; all of 38 digits whose magnitude takes at most 8 bytes (not 6)
//@ says: a decimal of at most 18 digits hashes as hashLong of its unscaled value, a longer one as the bytes of BigInteger.toByteArray
crate::h!(h_decimal {
    let n = [1, 2, 3, 4, 5, 7, 8][any_fixed(0, 6) as usize];
    let v = bytes(n);
    let neg = fix((v[0] >= 128) as u64) == 1;
    if n > 1 { if neg { assume(!((v[0] == 255) & (v[1] >= 128))); } else { assume(!((v[0] == 0) & (v[1] < 128))); } }
    let mut b = [if neg { 255u8 } else { 0 }; 16];
    let mut i = 0;
    while i < n { b[16 - n + i] = v[i]; i += 1; }
    let a = Decimal128Array::from(vec![Some(i128::from_be_bytes(b)), None, Some(i128::from_be_bytes(b))]).with_precision_and_scale(38, 2).unwrap();
    one(aref(a), |s| hb(&v, s));
});
//@ bound: all decimals of 1, 9 and 18 digits
crate::h!(h_decimal18 {
    let x = any_i64();
    let (p, m) = [(1u8, 10i64), (9, 1_000_000_000), (18, 1_000_000_000_000_000_000)][any_fixed(0, 2) as usize];
    assume((x < m) & (x > -m));
    let a = Decimal128Array::from(vec![Some(x as i128), None, Some(x as i128)]).with_precision_and_scale(p, 0).unwrap();
    one(aref(a), |s| hl(x as u64, s));
});
