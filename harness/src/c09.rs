// Two writers of a Delta table: when the second one may still commit.
use crate::rt::*;
use sail_delta_lake::spec::*;
use sail_delta_lake::snapshot::*;
use sail_delta_lake::transaction::conflict_checker::*;
use sail_delta_lake::spec::{Action, CommitAction};

const ADD: &str = "{\"path\":\"P\",\"partitionValues\":{},\"size\":1,\"modificationTime\":1,\"dataChange\":true}";
fn add(p: &str, change: bool) -> Add { let mut a: Add = serde_json::from_str(ADD).unwrap(); a.path = p.to_string(); a.data_change = change; a }
fn dv() -> DeletionVectorDescriptor { DeletionVectorDescriptor { storage_type: StorageType::UuidRelativePath, path_or_inline_dv: "ab^-aqEH.-t@S}K{vb[*k^".to_string(), offset: Some(1), size_in_bytes: 4, cardinality: 1 } }
fn remove(p: &str, change: bool) -> Remove { let mut r: Remove = serde_json::from_str("{\"path\":\"P\",\"dataChange\":true,\"deletionTimestamp\":1}").unwrap(); r.path = p.to_string(); r.data_change = change; r }
fn protocol(r: i32, w: i32) -> Protocol { serde_json::from_str(["{\"minReaderVersion\":", D[r as usize], ",\"minWriterVersion\":", D[w as usize], "}"].concat().as_str()).unwrap() }
const D: [&str; 8] = ["0", "1", "2", "3", "4", "5", "6", "7"];
fn meta(id: &str) -> Metadata { serde_json::from_str(["{\"id\":\"", id, "\",\"format\":{\"provider\":\"parquet\",\"options\":{}},\"schemaString\":\"{\\\"type\\\":\\\"struct\\\",\\\"fields\\\":[]}\",\"partitionColumns\":[],\"configuration\":{}}"].concat().as_str()).unwrap() }
fn txn(app: &str) -> Transaction { serde_json::from_str(["{\"appId\":\"", app, "\",\"version\":3}"].concat().as_str()).unwrap() }
fn domain(d: &str) -> DomainMetadata { serde_json::from_str(["{\"domain\":\"", d, "\",\"configuration\":\"\",\"removed\":false}"].concat().as_str()).unwrap() }
/// A snapshot holding file a, and file b with a deletion vector.
fn snapshot(iso: Option<IsolationLevel>) -> DeltaSnapshot {
    let mut b = add("b", true);
    b.deletion_vector = Some(dv());
    let mut p = TableProperties::default();
    p.isolation_level = iso;
    DeltaSnapshot {
        version: 0, table_url: url::Url::parse("file:///t/").unwrap(), config: Default::default(), protocol: protocol(1, 2), metadata: meta("m"), table_properties: p,
        arrow_schema: std::sync::Arc::new(arrow::datatypes::Schema::empty()), adds: std::sync::Arc::new(vec![add("a", true), b]), removes: Default::default(), app_txns: Default::default(),
        domain_metadata: Default::default(), commit_timestamps: Default::default(), files_batch: Default::default(),
    }
}
fn verdict(s: &DeltaSnapshot, mine: &[CommitAction], theirs: Vec<Action>, op: &DeltaOperation) -> Result<(), CommitConflictError> {
    let commit_info = theirs.iter().find_map(|a| match a { Action::CommitInfo(c) => Some(c.clone()), _ => None });
    let t = TransactionInfo::new(s, mine, op.read_whole_table());
    ConflictChecker::new(t, WinningCommitSummary { actions: theirs, commit_info }, Some(op)).check_conflicts()
}
fn op(merge: bool) -> DeltaOperation {
    if merge { DeltaOperation::Merge { predicate: None, merge_predicate: None, matched_predicates: vec![], not_matched_predicates: vec![], not_matched_by_source_predicates: vec![] } }
    else { DeltaOperation::Write { mode: SaveMode::Append, partition_by: None, predicate: None } }
}
//@ bound: the earlier commit adds a file or not, removes a read file, a file with a deletion vector, an unread version of a file, or none, marked as blind append or not or without commit info, changing data or not; this one removes none, one or another of them, changes metadata or not, read the whole table or the files it names, at every isolation level
//@ says: a commit is refused when an earlier one removed a file it read or removes, or (unless at snapshot isolation or appended blindly under write-serializable) added data to a table it read whole; otherwise it goes through
crate::h!(h_files {
    let iso = [None, Some(IsolationLevel::Serializable), Some(IsolationLevel::WriteSerializable), Some(IsolationLevel::SnapshotIsolation)];
    let k = any_fixed(0, 3) as usize;
    let s = snapshot(iso[k]);
    let change = any_bool();
    let their_add = fix(any_bool() as u64) == 1;
    let their_rm = any_fixed(0, 4);
    let ci = any_fixed(0, 2);
    let mut theirs = vec![];
    if their_add { theirs.push(Action::Add(add("n", change))); }
    match their_rm { 1 => theirs.push(Action::Remove(remove("a", change))), 2 => { let mut r = remove("b", change); r.deletion_vector = Some(dv()); theirs.push(Action::Remove(r)) }, 3 => theirs.push(Action::Remove(remove("b", change))), 4 => theirs.push(Action::Remove(remove("z", change))), _ => {} }
    if ci > 0 { theirs.push(Action::CommitInfo(CommitInfo { is_blind_append: Some(ci == 2), ..Default::default() })); }
    let my_rm = any_fixed(0, 2);
    let my_meta = fix(any_bool() as u64) == 1;
    let merge = fix(any_bool() as u64) == 1;
    let mut mine = vec![CommitAction::Add(add("q", true))];
    if my_rm == 1 { mine.push(CommitAction::Remove(remove("a", true))); }
    if my_rm == 2 { mine.push(CommitAction::Remove(remove("z", true))); }
    if my_meta { mine.push(CommitAction::Metadata(meta("m2"))); }
    let r = verdict(&s, &mine, theirs, &op(merge));
    let removed_read = their_rm == 1 || their_rm == 2 || (their_rm != 0 && merge);
    let both_removed = (my_rm == 1 && their_rm == 1) || (my_rm == 2 && their_rm == 4);
    // the default level is one of the two strict ones
    let strict = k != 0;
    let snapshot_iso = k == 3;
    let serializable = k == 1;
    // a commit of nothing but rearranged files never counts as new data
    let rearranged = (ci == 0) & !change;
    let unread = their_add & merge & !snapshot_iso & (!strict | serializable | my_meta | (ci != 2));
    if removed_read { check(r.is_err(), 1); reach(1); }
    if both_removed { check(r.is_err(), 2); }
    if strict & unread & change { check(r.is_err(), 3); reach(3); }
    if !removed_read & !both_removed & !unread { check(r.is_ok(), 4); reach(4); }
    if !removed_read & !both_removed & unread & !rearranged & strict { check(matches!(r, Err(CommitConflictError::ConcurrentAppend)), 5); }
});
//@ bound: the earlier commit sets no, the same, an older or newer protocol and no, the same or different metadata; this one sets neither, one or both
//@ says: a commit is refused when an earlier one changed protocol or metadata, unless it sets exactly the same and the reader still supports it
crate::h!(h_protocol_metadata {
    let s = snapshot(None);
    let (tp, tm, mp, mm) = (any_fixed(0, 4), any_fixed(0, 2), any_fixed(0, 1), any_fixed(0, 1));
    let mut theirs = vec![Action::Add(add("n", true))];
    let pr = [(0, 0), (1, 4), (1, 5), (2, 4), (1, 1)][tp as usize];
    if tp > 0 { theirs.push(Action::Protocol(protocol(pr.0, pr.1))); }
    if tm > 0 { theirs.push(Action::Metadata(meta(["", "m2", "m3"][tm as usize]))); }
    let mut mine = vec![CommitAction::Add(add("q", true))];
    if mp > 0 { mine.push(CommitAction::Protocol(protocol(1, 4))); }
    if mm > 0 { mine.push(CommitAction::Metadata(meta("m2"))); }
    let r = verdict(&s, &mine, theirs, &op(false));
    let p_ok = tp == 0 || (tp == 1 && mp == 1);
    let m_ok = tm == 0 || (tm == 1 && mm == 1);
    check(r.is_ok() == (p_ok && m_ok), 1);
    if !p_ok { check(matches!(r, Err(CommitConflictError::ProtocolChanged(_))), 2); reach(2); }
    else if !m_ok { check(matches!(r, Err(CommitConflictError::MetadataChanged)), 3); reach(3); }
    else { reach(1); }
});
//@ bound: application and domain names out of five, overlapping or not,, each present or not, first or second in the commit
//@ says: a commit is refused when an earlier one moved the same streaming application or the same metadata domain
crate::h!(h_app_domain {
    let s = snapshot(None);
    let (a, b) = (any_fixed(95, 99) as u8, any_fixed(97, 98) as u8);
    let kind = any_fixed(0, 3);
    let first = fix(any_bool() as u64) == 1;
    let (an, bn) = ([a], [b]);
    let (an, bn) = (as_str(&an), as_str(&bn));
    let mut theirs = vec![Action::Add(add("n", true))];
    let mut mine = vec![CommitAction::Add(add("q", true))];
    let x = if kind & 1 == 0 { let mut t = txn("k"); t.app_id = an.to_string(); Action::Txn(t) } else { let mut t = domain("k"); t.domain = an.to_string(); Action::DomainMetadata(t) };
    let y = if kind & 2 == 0 { let mut t = txn("k"); t.app_id = bn.to_string(); CommitAction::Txn(t) } else { let mut t = domain("k"); t.domain = bn.to_string(); CommitAction::DomainMetadata(t) };
    if first { theirs.insert(0, x); mine.insert(0, y); } else { theirs.push(x); mine.push(y); }
    let r = verdict(&s, &mine, theirs, &op(false));
    let same = (kind & 1) == (kind >> 1);
    if a == b && same { check(r.is_err(), 1); reach(1); } else { check(r.is_ok(), 2); reach(2); }
});
