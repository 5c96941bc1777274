// Names in a Delta log: which files mean what.
use crate::rt::*;
use sail_delta_lake::spec::log::*;

fn lower(b: u8) -> bool { b.is_ascii_digit() }
/// 20 bytes: what version do they spell?
#[inline(never)]
fn version(b: &[u8]) -> Option<i64> {
    let mut ok = true;
    let mut v: i128 = 0;
    let mut i = 0;
    while i < 20 { ok &= (b[i] >= b'0') & (b[i] <= b'9'); v = v * 10 + (b[i] as i128 - 48); i += 1; }
    if ok & (v <= i64::MAX as i128) { Some(v as i64) } else { None }
}
const BASE: [&[u8]; 3] = [b"00000000000000000000", b"09223372036854775000", b"10000000000000000000"];
/// One of three numbers with its last two digits replaced by any digits, then any ASCII character at one of four places.
fn number(v: &mut Vec<u8>) {
    let base = BASE[any_fixed(0, 2) as usize];
    let odd = [0, 9, 17, 19, 20][any_fixed(0, 4) as usize];
    let mut i = 0;
    while i < 20 {
        let mut b = base[i as usize];
        if i >= 18 || i == odd { b = any_u8(); assume(b < 128); }
        if i >= 18 && i != odd { assume((b >= b'0') & (b <= b'9')); }
        v.push(b);
        i += 1;
    }
}
fn same(a: Option<i64>, b: Option<i64>, id: u32) {
    check(a.is_some() == b.is_some(), id);
    if let (Some(a), Some(b)) = (a, b) { check(a == b, id); reach(id); }
}
fn tail_is(t: &[u8], s: &[u8]) -> bool {
    let mut ok = t.len() == s.len();
    let mut i = 0;
    while ok && i < s.len() { ok = t[i] == s[i]; i += 1; }
    ok
}
//@ bound: three 20-digit numbers (0, near the 64-bit maximum, beyond it) with any last two digits and any ASCII character at place 0, 9, 17 or 19, followed by any 3 to 6 ASCII characters
//@ says: a commit is exactly a 20-digit version that fits 64 bits followed by .json; its version is that number
crate::h!(h_commit {
    let mut b = vec![];
    number(&mut b);
    let n = any_fixed(3, 6) as usize;
    b.extend(ascii(n));
    let v = version(&b);
    same(parse_version_prefix(as_str(&b)), v, 1);
    let js = tail_is(&b[20..], b".json");
    same(parse_commit_version(as_str(&b)), if js { v } else { None }, 2);
    let crc = tail_is(&b[20..], b".crc");
    same(parse_checksum_version(as_str(&b)), if crc { v } else { None }, 3);
});
//@ bound: names of 0 to 19 and 21 ASCII characters
//@ says: shorter or longer names are no commits
crate::h!(h_short {
    let n = any_fixed(0, 24) as usize;
    let b = ascii(n);
    check(parse_commit_version(as_str(&b)).is_none(), 1);
    if n < 24 { check(parse_checksum_version(as_str(&b)).is_none(), 2); }
    if n < 20 { check(parse_version_prefix(as_str(&b)).is_none(), 3); }
    check(parse_checkpoint_version(as_str(&b)).is_none() | (n >= 24), 4);
    check(parse_compacted_json_versions(as_str(&b)).is_none(), 5);
    check(!is_uuid_checkpoint_filename(as_str(&b)), 6);
    reach(1);
});
const TAILS: [&str; 12] = [".checkpoint.parquet", ".checkpoint.json", ".checkpoint.80a083e8-7026-4e79-81be-64bd76c43a11.json", ".checkpoint.80a083e8-7026-4e79-81be-64bd76c43a11.parquet",
    ".checkpoint.80a083e8-7026-4e79-81be-64bd76c43a1.parquet", ".checkpoint.80a083e8-7026-4e79-81be-64bd76c43a1g.json", ".checkpoint.parquet.tmp", ".checkpoint", ".parquet", ".json", ".00000000000000000009.compacted.json", ".crc"];
//@ bound: three 20-digit numbers (0, near the 64-bit maximum, beyond it) with any last two digits and any ASCII character at place 0, 9, 17 or 19, 12 endings
//@ says: a checkpoint has a version and a checkpoint ending; a V2 checkpoint also a well-formed UUID
crate::h!(h_checkpoint {
    let mut b = vec![];
    number(&mut b);
    let t = any_fixed(0, 11) as usize;
    b.extend_from_slice(TAILS[t].as_bytes());
    let v = version(&b);
    if t < 4 { same(parse_checkpoint_version(as_str(&b)), v, 1); }
    if t >= 6 { check(parse_checkpoint_version(as_str(&b)).is_none(), 2); }
    check(is_uuid_checkpoint_filename(as_str(&b)) == ((t == 2 || t == 3) && v.is_some()), 3);
    check(is_json_checkpoint_filename(as_str(&b)) == (t == 2 && v.is_some()), 4);
    check(parse_commit_version(as_str(&b)).is_some() == (t == 9 && v.is_some()), 5);
    check(parse_checksum_version(as_str(&b)).is_some() == (t == 11 && v.is_some()), 6);
});
//@ bound: both versions any three 20-digit numbers (0, near the 64-bit maximum, beyond it) with any last two digits and any ASCII character at place 0, 9, 17 or 19, any separator
//@ says: a compacted file names two versions, the first below the second
crate::h!(h_compacted {
    let mut b = vec![];
    let which = any_bool();
    if which { number(&mut b); b.push(any_u8()); assume(b[20] < 128); b.extend_from_slice(b"00000000000000000007"); }
    else { b.extend_from_slice(b"00000000000000000007."); number(&mut b); }
    b.extend_from_slice(b".compacted.json");
    let r = parse_compacted_json_versions(as_str(&b));
    let (s, e) = (version(&b), version(&b[21..]));
    check(is_compacted_json_filename(as_str(&b)) == r.is_some(), 1);
    let want = match (s, e) { (Some(s), Some(e)) => (s < e) & (b[20] == b'.'), _ => false };
    check(r.is_some() == want, 2);
    if let (Some(r), Some(s), Some(e)) = (r, s, e) { check((r.0 == s) & (r.1 == e), 3); reach(1); }
});
//@ fmt: real
//@ bound: all versions below 100 and around 10^9 and the 64-bit maximum
//@ says: the name of a file written for a version is recognised as that version's file and as no other kind
crate::h!(h_names {
    let base = [0i64, 999_999_950, i64::MAX - 101];
    let v = base[any_fixed(0, 2) as usize] + any_fixed(0, 99) as i64;
    let id = uuid::Uuid::from_u128(0x80a083e8_7026_4e79_81be_64bd76c43a11);
    let names = [commit_path(v), checksum_path(v), checkpoint_path(v), uuid_checkpoint_path(v, &id), uuid_json_checkpoint_path(v, &id), compacted_json_path(v, v + 1), staged_commit_path(v, &id), delta_log_prefix_path(v)];
    let mut i = 0;
    while i < 8 {
        let p = names[i].as_ref();
        check(p.starts_with("_delta_log/"), 1);
        let f = &p[11..];
        check(parse_commit_version(f) == if i == 0 { Some(v) } else { None }, 2);
        check(parse_checksum_version(f) == if i == 1 { Some(v) } else { None }, 3);
        check(parse_checkpoint_version(f) == if i >= 2 && i <= 4 { Some(v) } else { None }, 4);
        check(is_uuid_checkpoint_filename(f) == (i == 3 || i == 4), 5);
        check(parse_compacted_json_versions(f) == if i == 5 { Some((v, v + 1)) } else { None }, 6);
        i += 1;
    }
});
