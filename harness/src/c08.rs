// Rebuilding a Delta table version from its log: commits, compacted files and checkpoints.
//@@ cut: parquet datafusion_common_runtime tokio serde_arrow arrow_ipc arrow_csv arrow_json datafusion datafusion_physical_plan datafusion_functions regex regex_automata
use crate::rt::*;
use crate::store::*;
use sail_delta_lake::checkpoint::*;
use sail_delta_lake::delta_log::replay::*;
use sail_delta_lake::snapshot::{ReplayedTableHeader, ReplayedTableState};
use sail_delta_lake::spec::{Action, CheckpointActionRow};

const PROTOCOL: &str = "{\"protocol\":{\"minReaderVersion\":1,\"minWriterVersion\":2}}";
const PROTOCOL3: &str = "{\"protocol\":{\"minReaderVersion\":1,\"minWriterVersion\":4}}";
const META: &str = "{\"metaData\":{\"id\":\"m\",\"format\":{\"provider\":\"parquet\",\"options\":{}},\"schemaString\":\"{\\\"type\\\":\\\"struct\\\",\\\"fields\\\":[]}\",\"partitionColumns\":[],\"configuration\":{}}}";
const META2: &str = "{\"metaData\":{\"id\":\"n\",\"format\":{\"provider\":\"parquet\",\"options\":{}},\"schemaString\":\"{\\\"type\\\":\\\"struct\\\",\\\"fields\\\":[]}\",\"partitionColumns\":[],\"configuration\":{}}}";
const DV: &str = ",\"deletionVector\":{\"storageType\":\"u\",\"pathOrInlineDv\":\"ab^-aqEH.-t@S}K{vb[*k^\",\"offset\":1,\"sizeInBytes\":4,\"cardinality\":1}";
fn add(p: &str, dv: &str, size: &str) -> String { ["{\"add\":{\"path\":\"", p, "\",\"partitionValues\":{},\"size\":", size, ",\"modificationTime\":1,\"dataChange\":true", dv, "}}\n"].concat() }
fn remove(p: &str, dv: &str, at: &str) -> String { ["{\"remove\":{\"path\":\"", p, "\",\"dataChange\":true,\"deletionTimestamp\":", at, dv, "}}\n"].concat() }
fn domain(conf: &str, removed: bool) -> String { ["{\"domainMetadata\":{\"domain\":\"d\",\"configuration\":\"", conf, if removed { "\",\"removed\":true}}\n" } else { "\",\"removed\":false}}\n" }].concat() }
fn txn(v: &str) -> String { ["{\"txn\":{\"appId\":\"x\",\"version\":", v, "}}\n"].concat() }
fn name(v: u64) -> String { ["_delta_log/0000000000000000000", DIG[v as usize], ".json"].concat() }

/// What a table looks like: files a, a with a deletion vector, b (their sizes); domain d; transaction x; protocol; metadata.
#[derive(Clone, Copy, PartialEq)]
struct Model { file: [Option<i64>; 3], domain: Option<u8>, txn: Option<i64>, writer: i32, meta: u8 }
const KINDS: u64 = 10;
/// The text of a commit of this kind and what it does to the table.
fn commit(kind: u64, v: u64, m: &mut Model) -> String {
    let d = DIG[v as usize];
    let n = v as i64;
    match kind {
        0 => { m.file[0] = Some(n); add("a", "", d) }
        1 => { m.file[0] = None; remove("a", "", "5") }
        2 => { m.file[0] = None; remove("a", "", "50") }
        3 => { m.file[0] = None; m.file[1] = Some(n); remove("a", "", "50") + &add("a", DV, d) }
        4 => { m.file[1] = None; m.file[2] = Some(n); remove("a", DV, "50") + &add("b", "", d) }
        5 => { m.domain = Some(b'0' + v as u8); domain(d, false) }
        6 => { m.domain = None; domain("", true) }
        7 => { m.txn = Some(n); txn(d) }
        8 => { m.writer = 4; PROTOCOL3.to_string() + "\n" }
        _ => { m.meta = b'n'; META2.to_string() + "\n{\"commitInfo\":{\"timestamp\":1}}\n" }
    }
}
fn start(m: &mut Model) -> String { *m = Model { file: [Some(0), None, None], domain: Some(b'0'), txn: Some(0), writer: 2, meta: b'm' }; [PROTOCOL, "\n", META, "\n", &add("a", "", "0"), &domain("0", false), &txn("0")].concat() }
const NONE: Model = Model { file: [None; 3], domain: None, txn: None, writer: 0, meta: 0 };
fn files<'a>(it: impl Iterator<Item = (&'a String, bool, i64)>) -> [Option<i64>; 3] {
    let mut f = [None; 3];
    for (p, dv, size) in it {
        let i = if p == "b" { 2 } else { dv as usize };
        check((p == "b" || p == "a") && f[i].is_none(), 20);
        f[i] = Some(size);
    }
    f
}
fn same(s: &ReplayedTableState, m: &Model, base: u32) {
    check(files(s.adds.iter().map(|a| (&a.path, a.deletion_vector.is_some(), a.size))) == m.file, base);
    check(s.domain_metadata.first().map(|d| d.configuration.as_bytes()[0]) == m.domain && s.domain_metadata.len() <= 1, base + 1);
    check(s.txns.get("x").map(|t| t.version) == m.txn, base + 2);
    check(s.protocol.min_writer_version() == m.writer && s.metadata.id().as_bytes()[0] == m.meta, base + 3);
}
/// A header read with the state of version 0 as the base to start from.
fn header(log: &Log, v: i64) -> ReplayedTableHeader {
    let b = block_on(load_replayed_table_state(0, log, None)).unwrap();
    let base = ReplayedTableHeader { version: 0, protocol: b.protocol, metadata: b.metadata, txns: std::sync::Arc::new(b.txns), domain_metadata: std::sync::Arc::new(b.domain_metadata.into_iter().map(|d| (d.domain.clone(), d)).collect()), commit_timestamps: Default::default() };
    block_on(load_replayed_table_header(v, log, Some(&base), None)).unwrap().unwrap()
}
fn same_header(s: &ReplayedTableHeader, m: &Model, base: u32) {
    check(s.domain_metadata.get("d").map(|d| d.configuration.as_bytes()[0]) == m.domain, base + 1);
    check(s.txns.get("x").map(|t| t.version) == m.txn, base + 2);
    check(s.protocol.min_writer_version() == m.writer && s.metadata.id().as_bytes()[0] == m.meta, base + 3);
}
//@ fmt: real
//@ bound: a first commit followed by two commits of 10 kinds each (add, remove, replace with a deletion vector, domain, transaction, protocol, metadata changes)
//@ says: the state of a version is what its commits leave in order: the last action on a file, domain, transaction, protocol or metadata wins
crate::h!(h_replay {
    let s = MemStore::new();
    let mut m = NONE;
    s.put_at(&name(0), start(&mut m).into_bytes(), 0);
    let mut v = 1;
    while v <= 2 { let k = any_fixed(0, KINDS - 1); s.put_at(&name(v), commit(k, v, &mut m).into_bytes(), 0); v += 1; }
    let log = Log(s);
    let st = block_on(load_replayed_table_state(2, &log, None)).unwrap();
    same(&st, &m, 1);
    check(st.version == 2, 5);
    let h = header(&log, 2);
    same_header(&h, &m, 10);
    reach(1);
});
//@ fmt: real
//@ bound: the same histories; a compacted file of versions 0-1, 1-2 or 0-2 written by the table itself with any of two retention limits
//@ says: reading through a compacted file gives the same files, domains, transactions, protocol and metadata as reading the commits
//@ a1: files
crate::h!(h_compaction {
    let s = MemStore::new();
    let mut m = NONE;
    s.put_at(&name(0), start(&mut m).into_bytes(), 0);
    let mut v = 1;
    while v <= 2 { let k = any_fixed(0, KINDS - 1); s.put_at(&name(v), commit(k, v, &mut m).into_bytes(), 0); v += 1; }
    let log = Log(s.clone());
    let (a, b) = [(0, 1), (1, 2), (0, 2)][any_fixed(0, 2) as usize];
    block_on(create_log_compaction_for(a, b, &log, [-1, 10][any_fixed(0, 1) as usize])).unwrap();
    check(s.has(["_delta_log/0000000000000000000", DIG[a as usize], ".0000000000000000000", DIG[b as usize], ".compacted.json"].concat().as_str()), 9);
    let st = block_on(load_replayed_table_state(2, &log, None)).unwrap();
    same(&st, &m, 1);
    let h = header(&log, 2);
    same_header(&h, &m, 10);
    reach(1);
});
//@ fmt: real
//@ bound: a JSON V2 checkpoint of version 1, then a compacted file of versions 2-3 (present or not) and commits 2 to 4 of 4 kinds
//@ says: a version after a checkpoint is the checkpoint followed by every later commit, whether or not some of them are read from a compacted file
crate::h!(h_checkpoint_then {
    let s = MemStore::new();
    let mut m = NONE;
    s.put_at(&name(0), start(&mut m).into_bytes(), 0);
    s.put_at(&name(1), txn("1").into_bytes(), 0);
    m.txn = Some(1);
    let cp = ["{\"checkpointMetadata\":{\"version\":1}}\n", PROTOCOL, "\n", META, "\n", &add("a", "", "0"), &domain("0", false), &txn("1")].concat();
    s.put_at("_delta_log/00000000000000000001.checkpoint.80a083e8-7026-4e79-81be-64bd76c43a11.json", cp.into_bytes(), 0);
    let mut v = 2;
    while v <= 4 { let k = [2, 4, 5, 7][any_fixed(0, 3) as usize]; s.put_at(&name(v), commit(k, v, &mut m).into_bytes(), 0); v += 1; }
    let log = Log(s.clone());
    if any_bool() { block_on(create_log_compaction_for(2, 3, &log, -1)).unwrap(); reach(2); }
    let st = block_on(load_replayed_table_state(4, &log, None)).unwrap();
    same(&st, &m, 1);
    let h = header(&log, 4);
    same_header(&h, &m, 10);
    reach(1);
});
//@ fmt: real
//@ bound: histories of three commits of 10 kinds, any retention limit for the removed files
//@ says: the rows of a checkpoint rebuild the same files, domains, transactions, protocol and metadata; each fact is in it once
crate::h!(h_checkpoint_rows {
    let mut m = NONE;
    let mut st = ReconciledCheckpointState::default();
    let mut apply = |t: String| for l in t.lines() { st.apply_action(serde_json::from_str::<Action>(l).unwrap()); };
    apply(start(&mut m));
    let mut v = 1;
    while v <= 3 { let k = any_fixed(0, KINDS - 1); apply(commit(k, v, &mut m)); v += 1; }
    st.prune_expired_checkpoint_actions([0, 700_000_000][any_fixed(0, 1) as usize]).unwrap();
    let (it, n) = st.into_checkpoint_batch_iter(100).unwrap();
    let mut again = ReconciledCheckpointState::default();
    let mut rows = 0;
    let mut adds = 0;
    for r in it.rows { adds += r.add.is_some() as i64; rows += 1; again.apply_checkpoint_row(r).unwrap(); }
    check(n == adds, 7);
    check(files(again.adds.values().map(|a| (&a.path, a.deletion_vector.is_some(), a.size))) == m.file, 1);
    check(again.domain_metadata.get("d").map(|d| d.configuration.as_bytes()[0]) == m.domain, 2);
    check(again.txns.get("x").map(|t| t.version) == m.txn, 3);
    check(again.protocol.as_ref().unwrap().min_writer_version() == m.writer && again.metadata.as_ref().unwrap().id().as_bytes()[0] == m.meta, 4);
    check(rows == again.adds.len() + again.removes.len() + again.domain_metadata.len() + again.txns.len() + 2, 5);
    reach(1);
});
