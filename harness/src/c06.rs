// Choosing the log files a Delta table version is rebuilt from.
use crate::rt::*;
use crate::store::*;
use std::sync::Arc;
use sail_delta_lake::delta_log::segment::*;
use sail_delta_lake::delta_log::store::*;

const PAD: &str = "_delta_log/0000000000000000000";
fn commit(v: u64) -> String { [PAD, DIG[v as usize], ".json"].concat() }
fn checkpoint(v: u64) -> String { [PAD, DIG[v as usize], ".checkpoint.parquet"].concat() }
fn compacted(a: u64, b: u64) -> String { [PAD, DIG[a as usize], ".0000000000000000000", DIG[b as usize], ".compacted.json"].concat() }
fn flag() -> bool { fix(any_bool() as u64) == 1 }

fn scene(n: u64, cps: &[u64], comps: &[(u64, u64)], hint: bool) {
    let s = MemStore::new();
    let target = any_fixed(0, n - 1);
    let mut com = [false; 10];
    let mut cp = [false; 10];
    let mut i = 0;
    while i < n { com[i as usize] = flag(); if com[i as usize] { s.put_at(&commit(i), vec![], 0); } i += 1; }
    for &c in cps { cp[c as usize] = flag(); if cp[c as usize] { s.put_at(&checkpoint(c), vec![], 0); } }
    let mut have = vec![];
    for &(a, b) in comps { if flag() { s.put_at(&compacted(a, b), vec![], 0); have.push((a, b)); } }
    // names in the log that mean nothing
    s.put_at("_delta_log/_sidecars/00000000000000000001.json", vec![], 0);
    s.put_at("_delta_log/00000000000000000001.json.tmp", vec![], 0);
    if hint {
        // the newest checkpoint
        let mut h = None;
        for &c in cps { if cp[c as usize] { h = Some(c); } }
        if let Some(h) = h { s.put_at("_delta_log/_last_checkpoint", ["{\"version\":", DIG[h as usize], ",\"size\":1}"].concat().into_bytes(), 0); }
    }
    let log = Log(s.clone());
    let r = LogSegmentResolver::new(&log, target as i64, None, None);
    let r = block_on(r.resolve_for_full_state());
    // the newest checkpoint at or below the target, and whether what follows it is there
    let mut best: Option<u64> = None;
    for &c in cps { if cp[c as usize] && c <= target { best = Some(c); } }
    let first = best.map_or(0, |c| c + 1);
    let mut complete = true;
    let mut v = first;
    while v <= target { complete &= com[v as usize]; v += 1; }
    match r {
        Ok(ResolvedLogSegment::FullReplay { checkpoint: ck, commit_files, compaction_files, target_version }) => {
            check(target_version == target as i64, 1);
            check(ck.as_ref().map(|m| m.location.as_ref() == checkpoint(best.unwrap_or(9)).as_str()).unwrap_or(false) == best.is_some(), 2);
            check(ck.is_some() == best.is_some(), 3);
            // every version after the checkpoint comes from exactly one file, in order
            let mut times = [0u8; 10];
            let mut last = -1;
            for (v, m) in &commit_files {
                check(*v > last, 4);
                last = *v;
                check((*v >= first as i64) & (*v <= target as i64), 5);
                check(m.location.as_ref() == commit(*v as u64).as_str(), 6);
                times[*v as usize] += 1;
            }
            let mut last = -1;
            for ((a, b), m) in &compaction_files {
                check((*a > last) & (*a >= first as i64) & (*b <= target as i64), 7);
                last = *b;
                check(m.location.as_ref() == compacted(*a as u64, *b as u64).as_str(), 8);
                let mut v = *a;
                while v <= *b { times[v as usize] += 1; v += 1; }
            }
            let mut v = 0;
            while v < n { check(times[v as usize] == (v >= first && v <= target) as u8, 9); v += 1; }
            reach(1);
        }
        Ok(_) => check(false, 10),
        Err(_) => { check(!complete, 11); reach(2); }
    }
}
//@ fmt: real
//@ bound: versions 0..=4, any subset of their commit files, any of checkpoints 1 and 3, any target version, no hint file
//@ says: the segment is the newest checkpoint not after the target plus every later version exactly once and in order; a gap is an error, a complete log is not
crate::h!(h_segment { scene(5, &[1, 3], &[], false) });
//@ fmt: real
//@ bound: versions 0..=4, checkpoints 1 and 4, _last_checkpoint naming the newest one, any target version at, before or after it
//@ says: the same with a _last_checkpoint hint, also when the target is older than the hinted checkpoint
crate::h!(h_segment_hint { scene(5, &[1, 4], &[], true) });
//@ fmt: real
//@ bound: versions 0..=3, checkpoint 0, compactions 0-1, 1-2, 1-3 and 2-3 in any combination
//@ says: compacted files replace exactly the commits they cover, never overlapping
crate::h!(h_segment_compaction { scene(4, &[0], &[(0, 1), (1, 2), (1, 3), (2, 3)], false) });
//@ fmt: real
//@ bound: versions 0..=4, no checkpoint, compactions 0-1, 1-2 and 3-4 in any combination
//@ says: the same for compactions with commits between them
crate::h!(h_segment_compaction_gap { scene(5, &[], &[(0, 1), (1, 2), (3, 4)], false) });
