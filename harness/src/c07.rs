// Deletion vectors: descriptor encoding, file framing, bitmap round trip.
use crate::rt::*;
use sail_delta_lake::deletion_vector::bitmap::DeletionVectorBitmap;
use sail_delta_lake::deletion_vector::resolve::*;
use sail_delta_lake::deletion_vector::storage::*;
use sail_delta_lake::deletion_vector::z85::*;
use sail_delta_lake::spec::{DeletionVectorDescriptor, StorageType};

const CHARS: &[u8; 85] = b"0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ.-:+=^!/*?&<>()[]{}@%$#";
//@ bound: all 4-byte words
//@ says: five characters spell a word in base 85, most significant first, and read back as the same word
crate::h!(h_z85_encode {
    let w = any_u32();
    let e = z85_encode(&w.to_be_bytes()).unwrap();
    let b = e.as_bytes();
    check(b.len() == 5, 1);
    check((b[0] == CHARS[(w / 52200625) as usize]) & (b[1] == CHARS[(w / 614125 % 85) as usize]) & (b[2] == CHARS[(w / 7225 % 85) as usize]) & (b[3] == CHARS[(w / 85 % 85) as usize]) & (b[4] == CHARS[(w % 85) as usize]), 2);
    reach(1);
});
/// A base-85 digit as a character.
fn digit(d: u64) -> u8 { CHARS[d as usize] }
//@ bound: all strings of five base-85 digits whose last is symbolic, the others from lists around the 32-bit maximum
//@ says: five characters decode to the word they spell; a group beyond 32 bits is an error, never a different word
crate::h!(h_z85_decode {
    let d0 = [0u64, 82, 83, 84][any_fixed(0, 3) as usize];
    let d1 = [23u64, 24][any_fixed(0, 1) as usize];
    let d2 = [54u64, 84][any_fixed(0, 1) as usize];
    let d3 = [12u64, 13][any_fixed(0, 1) as usize];
    let d4 = any_u64();
    assume(d4 < 85);
    let s = [digit(d0), digit(d1), digit(d2), digit(d3), digit(d4)];
    let want = (((d0 * 85 + d1) * 85 + d2) * 85 + d3) * 85 + d4;
    match z85_decode(as_str(&s)) {
        Ok(v) => { check((v.len() == 4) && (u32::from_be_bytes([v[0], v[1], v[2], v[3]]) as u64 == want), 1); reach(1); }
        Err(_) => { check(want > u32::MAX as u64, 2); reach(2); }
    }
});
//@ bound: any single ASCII character at any of five places, lengths 0 to 11
//@ says: characters outside the alphabet and lengths that are no multiple of five are errors
crate::h!(h_z85_alphabet {
    let n = any_fixed(0, 11) as usize;
    let at = any_fixed(0, 11) as usize;
    let mut s = vec![b'0'; n];
    let b = any_u8();
    assume(b < 128);
    if at < n { s[at] = b; }
    let mut ok = at >= n;
    let mut i = 0;
    while i < 85 { ok |= CHARS[i] == b; i += 1; }
    let r = z85_decode(as_str(&s));
    if n % 5 != 0 { check(r.is_err(), 1); }
    else if r.is_ok() { check(ok, 2); reach(1); }
    else { check(!ok | (at % 5 == 0), 3); reach(2); }
});
//@ bound: inputs of 0 to 7 bytes, each any byte
//@ says: padded encoding reads back as the bytes followed by zeros to a multiple of four
crate::h!(h_z85_padded {
    let n = any_fixed(0, 7) as usize;
    let d = bytes(n);
    let e = z85_encode_padded(&d).unwrap();
    check(e.len() == n.div_ceil(4) * 5, 1);
    let mut p = d;
    while p.len() % 4 != 0 { p.push(0); }
    check(z85_encode(&p).unwrap() == e, 2);
    check(z85_encode(&p[..p.len().min(3)]).is_err() == !p.is_empty(), 3);
    reach(1);
});
fn file(a: &[u64], b: &[u64]) -> (Vec<u8>, usize) {
    let mut f = vec![1u8];
    let mut second = 0;
    for (i, rows) in [a, b].iter().enumerate() {
        if i == 1 { second = f.len(); }
        let d = DeletionVectorBitmap::from_row_indices(rows.iter().copied()).serialize().unwrap();
        f.extend_from_slice(&(d.len() as u32).to_be_bytes());
        f.extend_from_slice(&d);
        let mut c = !0u32;
        for x in &d { c ^= *x as u32; for _ in 0..8 { c = if c & 1 == 1 { c >> 1 ^ 0xEDB8_8320 } else { c >> 1 }; } }
        f.extend_from_slice(&(!c).to_be_bytes());
    }
    (f, second)
}
const A: [u64; 3] = [3, 7, 70_000];
const B: [u64; 2] = [1, 1 << 33];
fn is(b: &DeletionVectorBitmap, rows: &[u64]) -> bool { b.len() == rows.len() as u64 && rows.iter().all(|r| b.contains(*r)) }
//@ bound: a file with two vectors, any one bit of any byte flipped or the whole byte inverted, read at either vector; the descriptor gives the true size or one off by -1, 1 or 4
//@ says: each vector is read from its own offset; any changed byte of a vector's size, data or checksum is an error, never another set of rows
crate::h!(h_dv_corrupt {
    let (mut f, second) = file(&A, &B);
    let at = any_fixed(0, f.len() as u64 - 1) as usize;
    let old = f[at];
    let flip = any_fixed(0, 9);
    f[at] ^= if flip < 8 { 1 << flip } else if flip == 8 { 255 } else { 0 };
    let which = any_bool();
    let lie = [0, -1, 1, 4][any_fixed(0, 3) as usize];
    let r = if which { read_dv_from_file_bytes(&f, Some(second as i32), (f.len() - second - 8) as i32 + lie) } else { read_dv_from_file_bytes(&f, None, (second - 9) as i32 + lie) };
    let mine = at == 0 || if which { at >= second } else { at > 0 && at < second };
    match r {
        Ok(b) => { check(is(&b, if which { &B } else { &A }), 1); check((f[at] == old) | !mine, 2); reach(1); }
        Err(_) => { check(((f[at] != old) & mine) | (lie != 0), 3); reach(2); }
    }
});
//@ bound: any negative offset, any offset past the end and 7 offsets around the true ones; files cut at any length
//@ says: any other offset or a truncated file is an error; nothing panics
crate::h!(h_dv_offset {
    let (f, second) = file(&A, &B);
    let cut = any_fixed(0, f.len() as u64) as usize;
    let near = [0, 1, 2, 5, second as i32 - 1, second as i32, second as i32 + 1];
    let k = any_fixed(0, 7) as usize;
    let off = if k < 7 { near[k] } else { let o = any_i32(); assume((o < 0) | (o > f.len() as i32 - 4)); o };
    let size = if any_bool() { -1 } else { 30 };
    match read_dv_from_file_bytes(&f[..cut], Some(off), size) {
        Ok(b) => {
            check(size >= 0, 1);
            check(((off == 1) & (cut >= second)) | ((off == second as i32) & (cut == f.len())), 2);
            if off == 1 { check(is(&b, &A), 3); } else { check(is(&b, &B), 4); }
            reach(1);
        }
        Err(_) => { check((size < 0) | !(((off == 1) & (cut >= second)) | ((off == second as i32) & (cut == f.len()))), 5); reach(2); }
    }
});
//@ bound: two rows, each any 64-bit index
//@ says: serialized bitmaps read back as the same set of rows; a union is the union
crate::h!(h_bitmap {
    let (x, y) = (any_u64(), any_u64());
    let b = DeletionVectorBitmap::from_row_indices([x, y]);
    check(b.contains(x) & b.contains(y), 1);
    check(b.len() == if x == y { 1 } else { 2 }, 2);
    let r = DeletionVectorBitmap::deserialize(&b.serialize().unwrap()).unwrap();
    check(r.contains(x) & r.contains(y) & (r.len() == b.len()), 3);
    let mut u = DeletionVectorBitmap::from_row_indices([x]);
    u.union_with(&DeletionVectorBitmap::from_row_indices([y]));
    check((u.len() == b.len()) & u.contains(x) & u.contains(y), 4);
    reach(1);
});
fn dv(p: &str) -> DeletionVectorDescriptor { DeletionVectorDescriptor { storage_type: StorageType::UuidRelativePath, path_or_inline_dv: p.to_string(), offset: Some(1), size_in_bytes: 1, cardinality: 1 } }
//@ fmt: real
//@ bound: prefixes of 0 to 3 letters; the last byte of the UUID symbolic
//@ says: a relative descriptor names <prefix>/deletion_vector_<uuid>.bin under the table
crate::h!(h_resolve {
    let n = any_fixed(0, 3) as usize;
    let last = any_fixed(0, 255) as u8;
    let mut id = [0x12u8, 0x34, 0x56, 0x78, 0x9a, 0xbc, 0xde, 0xf0, 0x0f, 0xed, 0xcb, 0xa9, 0x87, 0x65, 0x43, 0];
    id[15] = last;
    let prefix = &"abc"[..n];
    let enc = z85_encode(&id).unwrap();
    let root = url::Url::parse("file:///t/").unwrap();
    let u = resolve_dv_absolute_path(&root, &dv(&[prefix, &enc].concat())).unwrap().unwrap();
    let hex = b"0123456789abcdef";
    let mut want = String::from("/t/");
    if n > 0 { want.push_str(prefix); want.push('/'); }
    want.push_str("deletion_vector_12345678-9abc-def0-0fed-cba9876543");
    want.push(hex[last as usize / 16] as char);
    want.push(hex[last as usize % 16] as char);
    want.push_str(".bin");
    check(u.path() == want, 1);
    reach(1);
});
//@ bound: descriptor strings of 18 to 24 bytes with a multi-byte character at any place
//@ says: a malformed descriptor is an error, not a panic
crate::h!(h_resolve_malformed {
    panic_id(2);
    let n = any_fixed(18, 24) as usize;
    let at = any_fixed(0, 23) as usize;
    let mut s = "0".repeat(at.min(n - 2));
    s.push('é');
    while s.len() < n { s.push('0'); }
    let root = url::Url::parse("file:///t/").unwrap();
    let r = resolve_dv_absolute_path(&root, &dv(&s));
    check(r.is_err() | (n >= 22 && at <= n - 22), 1);
    reach(1);
});
